#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that ids, titles and anchors stay consistent)."""
import json, os
T='src/parser/tokenizer.rs'; E='src/parser/expressions.rs'; S='src/parser/statements.rs'; B='src/parser/blocks.rs'
F='src/parser/functions.rs'; N='src/parser/nodes.rs'; K='src/parser/tokens.rs'; R='src/parser/trivias.rs'
BUF='src/parser/source_buffer.rs'; P='src/parser/parser.rs'; M='src/parser/patterns.rs'
props=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
                  "why_tests_cant":why,"anchors":a})
TESTS_ONE="The tests lex or parse about 240 single hand-written fragments, almost all one token or one production long; "
p("C01","Token classification is Python's maximal munch",
  "Every piece of source text is split into the longest Python token that starts there and is classified as exactly the operator, delimiter, keyword or name it spells: all three-character operators win over two- and one-character ones, '...' is one token, '<>' and '!=' are the same operator. The 35 reserved words are keywords exactly when the whole identifier spells them (never as a prefix, suffix or in other case), and every other run of letters, digits and underscores starting with a letter or underscore is a name with that exact text.",
  ["inputs"],"all source texts, in particular every adjacency of operators, names, keywords, numbers and separators, with and without white space",
  TESTS_ONE+"no test puts two operators or a keyword and an identifier tail next to each other, so longest-match is never exercised across a boundary.",
  [T,K],[("operator table","get_symbol, match on peek_three_chars"),("keyword table","get_symbol, identifier branch")],["token kinds, texts and positions from the tokenizer"])
p("C02","Tokens and trivia tile the source losslessly",
  "For every source that tokenizes, the spans of tokens and of their attached trivia are non-overlapping, in order, and cover every character except the leading white space of a line, and the text recorded in a token, comment, newline or continuation is exactly the source text under its span. The original source can therefore be rebuilt from the token stream plus line-leading white space; zero-width tokens are only the indent, dedent, the newline supplied when the last line has none, and the end marker.",
  ["inputs"],"all sources without a lexical error, any mixture of layouts",
  TESTS_ONE+"positions are asserted for individual tokens at the start of a buffer, never as a partition of a whole file.",
  [T,R,BUF],[("token spans","token_start_position / get_position in get_symbol"),("trivia collection","trivia_collector in get_symbol")],["token and trivia spans and texts"])
p("C03","Indent and dedent tokens mirror the indentation of logical lines",
  "Before the first token of a logical line exactly one indent token is produced when the line is indented deeper than the enclosing block, and one dedent token for every open block it leaves when it is indented less (a space is one column, a tab goes on to the next multiple of four); lines that are blank or hold only a comment, and lines inside brackets or after a line continuation, never produce either. A line whose indentation matches no enclosing block is an error, and at the end of the source every block still open is closed by a dedent, so indents and dedents always balance.",
  ["inputs","histories"],"all sequences of line indentations, blank lines, comment lines, bracketed lines and continuation lines, with or without a final newline",
  TESTS_ONE+"only a handful of tests contain more than one line and none closes several blocks at once, returns to a middle block, or mixes blank and comment lines into a block.",
  [T],[("indent stack","get_symbol, is_at_beginning_of_line branch"),("pending counter","get_symbol, pending indent / dedent")],["sequence of Indent/Dedent/Newline tokens among the other tokens"],
  [("indent_stack","columns of the blocks open at this point",T),("pending","indents (positive) or dedents (negative) still to be delivered",T),("is_at_beginning_of_line","next character starts a physical line",T)])
p("C04","Brackets must match, and join lines implicitly",
  "A closing bracket is accepted only when it matches the most recently opened bracket that is still open, whatever lies between; any other closing bracket is an error at that point. While any bracket is open, line ends produce no newline, indent or dedent token (they become trivia of the next token), and as soon as the last bracket closes, line structure counts again.",
  ["inputs","histories"],"all sequences of opening and closing brackets of the three kinds, interleaved with other tokens, line ends, comments and indentation",
  TESTS_ONE+"bracket tests use a single pair; mixed nesting and line ends at different depths are not reached.",
  [T],[("bracket stack","get_symbol, parenthesis")],["tokens or the error, per bracket sequence"],
  [("parenthesis","closing brackets expected, innermost last",T)])
p("C05","LF, CR and CRLF line endings are interchangeable",
  "Replacing the line endings outside string literals of a source by any other of '\\n', '\\r' and '\\r\\n', line by line in any mixture, leaves the sequence of tokens, their texts, the parse tree and acceptance unchanged apart from positions; one line ending is always exactly one newline, which records the characters it was written with. Nothing before or after a line ending is lost or duplicated.",
  ["inputs","configurations"],"all sources and all assignments of a line-ending style to each of their line ends",
  TESTS_ONE+"CRLF and CR appear in a few one-line tests, with nothing after the line end.",
  [T],[("newline handling","get_symbol, newline as token or trivia"),("line continuation","get_symbol"),("newline in string literals","handle_string")],["token streams and trees of the variants"])
p("C06","Numeric literals are recognised exactly as in Python",
  "Decimal, hexadecimal, octal and binary integers, floats with fraction and/or exponent, and imaginary numbers in every letter case are one number token holding exactly their source text, with single underscores allowed only between digits (or after the base prefix). Malformed numbers (doubled or trailing underscores, missing digits after a base prefix, leading zeros in a nonzero decimal integer) are errors, and a number ends exactly where Python ends it: what follows is never swallowed and an incomplete exponent is not part of the number.",
  ["inputs"],"all strings over the alphabet of numeric literals, followed by anything",
  TESTS_ONE+"about forty literals are tested, each alone in the buffer, so neither the character after a number nor the error cases are covered.",
  [T],[("number scanner","get_symbol, branches for '0', '1'..'9' and '.' digit")],["token, text, end position or error"])
p("C07","String literals are delimited exactly as in Python",
  "A string literal, single or triple quoted with either quote and any of Python's prefixes in any letter case, extends to the first matching unescaped delimiter: backslash pairs (including backslash-newline) never end it, the other quote and, in triple-quoted literals, line ends and one or two quotes may occur inside. The token holds the exact literal text, with the prefix kept apart, and a literal that is not closed before the end of its line (or of the source for triple-quoted ones) is an error.",
  ["inputs"],"all literal bodies over quotes, backslashes, line ends and other characters; all prefixes; anything before or after",
  TESTS_ONE+"the literals tested have no escapes, no quotes inside and nothing after them.",
  [T],[("string scanner","handle_string"),("prefix table","get_symbol, identifier branch")],["token text, prefix, span or error"])
p("C08","Trivia belongs to the token that follows it, and nothing else changes",
  "Each run of spaces, each tab, comment, line continuation and joined or blank line end between two tokens is attached to the following token only, nearest first, with its exact text and span; white space at the start of a line is not recorded. Comments, blank lines and white space never change which tokens are produced, and every comment of the source is attached exactly once.",
  ["inputs"],"all placements of white space, comments, blank lines and continuations between tokens",
  TESTS_ONE+"trivia is tested with one item before one token.",
  [T,R],[("trivia collection","trivia_collector in get_symbol")],["trivia lists on tokens; token stream with trivia inserted or removed"])
p("C09","The character cursor is a faithful forward view of the source",
  "At every point of any sequence of operations the character buffer reports the source character (by Unicode scalar, not by byte) at its position, the next three characters, its position and the total length exactly as a plain array with an index would, with the NUL character past the end; only advancing moves it, by exactly one. Looking never moves it and advancing past the end is harmless.",
  ["inputs","histories"],"all Unicode source strings and all sequences of look, peek, position, count and advance operations",
  "Tests read a short ASCII buffer; sequences running past the end and multi-byte characters are not sampled.",
  [BUF],[("cursor","SourceBuffer get_char / peek_three_chars / advance / get_position / count")],["return values of each operation"],
  [("index","number of characters consumed",BUF)])
p("C10","Any input is handled: no panic, no overflow, no endless loop",
  "For every Unicode text, tokenizing it to the end and parsing it through each of the four entry points terminates and returns either a result or an error value; it never panics, overflows, loops without end or produces unboundedly many tokens. Once the end marker has been delivered, asking for more tokens keeps delivering the end marker at the same position.",
  ["inputs"],"all Unicode strings (nesting depth bounded so that recursion fits the stack), all four entry points, repeated calls after the end or after an error",
  TESTS_ONE+"tests feed well-formed fragments; malformed, truncated and arbitrary input is not covered at all.",
  [T,E,S,B,F,M,BUF],[("error returns","Result-valued productions and get_symbol"),("end marker","get_symbol, end of file")],["normal return of tokenizer and the four parse entry points"])
p("C11","Operator precedence and associativity are Python's",
  "An expression over Python's operators is grouped exactly as Python's grammar groups it: or, and, not, comparisons (including the two-word ones), |, ^, &, shifts, + and -, the multiplicative operators, unary + - ~, and ** in that binding order. Binary operators and comparisons group to the left, ** groups to the right and binds tighter than a unary operator on its left but looser than one on its right, and each operator yields the node for exactly that operator with its operands in source order.",
  ["inputs"],"all expressions built from the operators, of any length and nesting, over arbitrary operands",
  TESTS_ONE+"operator tests chain at most three operands of the same level; mixtures of levels are not compared with any reference.",
  [E],[("precedence ladder","parse_expressions_or_test .. parse_expressions_power")],["tree from the expression entry point"])
p("C12","Atoms, groups, tuples and lists parse to the right display",
  "Names, numbers, adjacent string literals (one node, all literals in order), True, False, None and '...' parse to their own node; round and square brackets give a tuple/group or list display holding all elements and commas in the source order (lists in nodes are stored last first), empty brackets hold nothing, and a trailing comma is kept as a separator. Elements may be conditional, named or starred expressions, and nothing inside the brackets is lost, duplicated or reordered.",
  ["inputs"],"all bracketed displays of any length, nesting and trailing-comma form",
  TESTS_ONE+"displays with nested content, trailing commas or more than three elements are not sampled.",
  [E],[("atoms","parse_expressions_atom"),("display body","parse_expressions_testlist_comp")],["tree from the entry points"])
p("C13","Conditional, named, starred, lambda and yield expressions nest as in Python",
  "'a if c else b' takes an or-level condition and body and nests to the right in its else part; a lambda body extends as far as a conditional expression does; a named expression takes a full expression on its right and is accepted where Python's grammar places it; starred expressions take a bitwise-or-level operand. 'yield', 'yield from' and tuple values of yield parse to their own nodes with every part in its place.",
  ["inputs"],"all nestings of these forms with each other, with operators and inside brackets",
  TESTS_ONE+"each form is tested once with plain names as parts.",
  [E],[("test level","parse_expressions_test / named_expression / lambda_def"),("star and yield","parse_expressions_star_expr / yield_expr")],["tree from the entry points"])
p("C14","Simple statements parse completely and in order",
  "A line of simple statements separated by semicolons, with or without a trailing one, parses to one statement line holding every statement and every semicolon (stored last first) and its newline. pass, break, continue, return, raise [from], global, nonlocal, del, assert and expression statements each keep their keyword, operands, names and commas in their own place, and optional parts are present exactly when written.",
  ["inputs","programs"],"all statement lines of any length over the simple statements, with all optional parts",
  TESTS_ONE+"each statement form is tested once, alone on a line, with a name as operand.",
  [S],[("statement line","parse_statements_simple_stmt"),("dispatch","parse_statements_small_stmt / flow_stmt")],["tree from file and single input"])
p("C15","if, while, for and with statements keep their clauses and bodies",
  "if/elif/else, while/else, for/else and with statements (also prefixed by async where allowed) parse to nodes holding their keyword tokens, conditions, targets, items and bodies each in its own place: elif clauses all kept (last first), else bound to the statement it is aligned with, with-items with their optional targets and parentheses. A clause that is not written is absent and none is taken from a neighbouring statement.",
  ["programs"],"all nestings and sequences of these statements, with one-line and block bodies and all optional clauses",
  TESTS_ONE+"each compound form is tested once with a one-line 'pass' body, never nested.",
  [S],[("compound statements","parse_statements_if_stmt / while_stmt / for_stmt / with_stmt / suite")],["tree from file input"])
p("C16","Entry points consume their whole input and nothing else",
  "File input accepts any sequence of statements and blank newlines and returns all of them (last first) with the end marker; expression input accepts one expression list followed by newlines and end; interactive input accepts one simple line or one compound statement; function-type input accepts one signature. Text left over after a complete expression, signature or file is never silently ignored: file, expression and function-type input are rejected unless everything up to the end was consumed.",
  ["inputs","programs"],"all token sequences offered to each of the four entry points",
  TESTS_ONE+"entry points are tested with single statements, and never with trailing extra text.",
  [B,F],[("entry points","parse_blocks_single_input / file_input / eval_input / func_type_input")],["result of the four entry points"])
p("C17","The tree holds every token of the source exactly once, in order",
  "Reading the tokens off a parse tree in source order gives exactly the token sequence of the source, each token with its own text, span and trivia: none dropped, duplicated, altered or exchanged. The source can therefore be reproduced from the tree alone (up to line-leading white space); only the newline directly after an interactive compound statement, for which its node has no place, is absent.",
  ["programs"],"all accepted programs in all layouts",
  TESTS_ONE+"tests pattern-match a few node fields and never account for all tokens of a program.",
  [N,E,S,B,F],[("node payloads","ASTNode variants carrying Token")],["multiset and order of tokens in the tree versus the tokenizer's output"])
p("C18","Every node spans exactly its own source text",
  "Each node starts where its first token starts and ends where the token following it starts (trailing white space and comments before that token included), so a child lies inside its parent, siblings do not overlap and appear in source order. Both ends are measured in characters from the start of the source.",
  ["programs"],"all accepted programs in all layouts",
  TESTS_ONE+"spans are asserted for one-line fragments starting at position 0, which cannot tell a node's own start from its parent's.",
  [E,S,B,F,N],[("start and end capture","start_pos / lexer.get_position() in every production")],["node spans"])
p("C19","Layout does not change the parse",
  "Changing how a program is laid out — spaces, tabs, comments, blank lines, line continuations, line breaks inside brackets, the width of each block's indentation, line endings — without changing its tokens leaves acceptance and the structure and texts of the parse tree unchanged. Only positions and trivia may differ.",
  ["programs","configurations"],"all programs and all pairs of layouts of the same token sequence",
  TESTS_ONE+"no test compares two layouts of one program.",
  [T,E,S,B],[("trivia separation","get_symbol keeps trivia out of the token kinds the parser matches on")],["trees of the two layouts"])
p("C20","Text outside the grammar is rejected",
  "A token sequence that no derivation of Python's grammar produces (missing or extra operand, operator, colon, bracket, comma, keyword, block or newline, or parts in the wrong order) is answered with an error, never with a tree. In particular, every accepted text is one for which the grammar has a derivation and the tree shows it.",
  ["inputs","programs"],"all single- and multi-token deletions, insertions, replacements and exchanges in valid programs, and random token sequences",
  TESTS_ONE+"there are practically no negative tests.",
  [E,S,B,F],[("expected-token checks","Err branches of every production")],["acceptance versus an independent reference grammar"])
p("C21","Parsing is deterministic and compositional",
  "Parsing the same text again gives the same result; the statements of a program made by joining two programs are those of the first followed by those of the second, each parsed as it is alone (positions shifted). Likewise wrapping an expression in brackets, or a program in a block of any depth, leaves its own subtree unchanged, whatever was parsed before it.",
  ["programs","histories"],"all pairs of programs, all wrappings, any nesting depth that fits the stack",
  TESTS_ONE+"every test parses one fragment with a fresh parser; nothing is parsed after something else.",
  [T,E,S,B,P],[("parser state","PythonCoreParser and PythonCoreTokenizer fields")],["trees of the parts and of the whole"],
  [("except_status","kind of except clause of the enclosing try statement",P),("parenthesis, indent_stack","lexer state carried across statements",T)])
p("C22","try statements: clauses, order and one kind of except",
  "A try statement holds its body, its except clauses in order (stored last first) each with optional type and name, and its optional else and finally, each in its own place; it needs at least one except clause or a finally, and else is only accepted after an except clause. All except clauses of one try are of the same kind, plain or starred, a starred one needs a type, and the kind used in one try statement never affects another, nested, enclosing or following.",
  ["programs","histories"],"all try statements with any number and kind of clauses, nested in any clause of each other and in sequence",
  TESTS_ONE+"single try statements are tested; nesting and mixing of kinds are not.",
  [S,P],[("try statement","parse_statements_try_stmt"),("kind of except","except_status in except_clause")],["tree or rejection"],
  [("except_status","kind of the except clauses seen in this try statement",P)])
p("C23","Functions, classes, decorators and async keep their parts",
  "A def without parameters, a class with or without base arguments, any stack of decorators with or without arguments, and the async forms of def, with and for parse to nodes that hold the name, return annotation, bases, decorators (last first) and body each in its own place. A decorator applies to exactly the definition that follows its lines, and async is accepted only before def, with and for.",
  ["programs"],"all definitions over these forms with one-line and block bodies, nested and in sequence",
  TESTS_ONE+"one or two definitions with a trivial body are tested.",
  [B,S],[("definitions","parse_blocks_decorated / func_def / class_def / async_func_def / func_body_suite"),("async","parse_statements_async_stmt")],["tree or rejection"])
p("C24","Import statements keep every module, name, alias and dot",
  "'import' with any number of dotted modules and aliases, and 'from' with any number of leading dots (written as '.' or '...' tokens), an optional module, and '*', a plain or a parenthesised name list with aliases and optional trailing comma, parse to nodes holding exactly those dots, names, aliases and commas in order. Forms Python does not allow (no name, trailing comma without parentheses, alias on a star, dotted alias or imported name) are rejected.",
  ["inputs","programs"],"all import statements of any length and shape, and their single-token edits",
  TESTS_ONE+"one module or name at a time is tested.",
  [S],[("imports","parse_statements_import_name / import_from / dotted_as_names / import_as_names / dotted_name")],["tree or rejection"])
p("C25","A lexical error anywhere makes the parse fail",
  "If the source contains a lexical error (unterminated string, malformed number, stray character, mismatched closing bracket, inconsistent dedent, backslash not followed by a line end), every entry point that would have to read past it returns an error and no tree. An error is never skipped, and text before it is never returned as if it were the whole program.",
  ["inputs","programs"],"all valid programs with one lexical fault injected at every kind of position",
  TESTS_ONE+"lexical errors are tested, if at all, directly on the tokenizer and never through the parser.",
  [T,E,S,B,P],[("error propagation","symbol : Result in the parser, Err arms of productions")],["result of the entry points"])
p("C26","Assignment statements keep targets, operators and values in order",
  "Plain assignments with any number of targets keep the first target and every '=' with its right-hand side in source order; each of the thirteen augmented assignments yields its own node with target, operator and value; annotated assignments keep target, annotation and optional value. Right-hand sides may be expression lists or yield expressions, and an augmented or annotated assignment is never chained.",
  ["inputs","programs"],"all assignment statements of any chain length, operator and operand shape",
  TESTS_ONE+"every operator is tested once with one-token operands; chains and nested values are not.",
  [S],[("expression statement","parse_statements_expr_stmt / ann_assign")],["tree or rejection"])
p("C27","Lambda parameter lists keep every parameter in its role",
  "For every lambda parameter list that Python allows — positional parameters, '/' marker, '*args' or bare '*', keyword-only parameters, '**kwargs', defaults, optional trailing comma — each parameter, default, marker and comma appears in the node once, in its role and order (stored last first). Lists Python's grammar does not allow, such as two star parameters, a parameter after '**', '/' after '*' or a default on a star parameter, are rejected.",
  ["inputs"],"all parameter lists of any length over these elements",
  TESTS_ONE+"a few fixed lists are tested; the production has several copies of the same loop, each reached by another combination.",
  [E],[("parameter list","parse_expressions_var_args_list / var_args_assignments / vfp_def")],["tree or rejection"])
p("C28","Type comments are tokens, ordinary comments are not",
  "A comment that begins with '# type:' is delivered as a type-comment token holding its exact text, in contrast to every other comment, which is only trivia; it never includes the line end. A type comment after an assignment, after the header of a for statement or as the first line of a function's block is kept in that statement's node, and changes nothing else.",
  ["inputs","programs"],"all comment texts and all assignments, for statements and function blocks with and without a type comment",
  TESTS_ONE+"type comments are tested at one place each.",
  [T,S,B],[("type comment token","get_symbol, comment branch"),("placement","expr_stmt, for_stmt, func_body_suite")],["token stream and tree"])
p("C29","Dictionary and set displays keep every entry in its place",
  "Braces hold a dictionary exactly when the first entry is 'key: value' or '**mapping' (or there is none) and a set otherwise; every key, value, unpacking, element and comma is kept in source order (stored last first), with an optional trailing comma. Mixing dictionary and set entries is rejected.",
  ["inputs"],"all brace displays of any length and nesting, with unpackings, comprehensions and trailing commas, and their single-token edits",
  TESTS_ONE+"displays of at most a few entries with plain names are tested.",
  [E],[("brace display","parse_expressions_dictorset_maker / atom")],["tree or rejection"])
p("C30","Calls, subscripts, slices and attributes chain in order",
  "Any chain of calls, subscripts and attribute accesses after an atom, optionally under await, is kept as that atom with its trailers in source order. Call arguments keep positional, keyword, named, '*' and '**' forms and a bare generator; subscripts keep each index or slice with exactly the lower, upper and step parts and colons that were written, and their commas including a trailing one.",
  ["inputs"],"all trailer chains of any length with arbitrary arguments and all slice shapes, and their single-token edits",
  TESTS_ONE+"one or two trailers with plain contents are tested; slices with omitted parts in lists are not.",
  [E],[("trailers","parse_expressions_atom_expr / trailer / arglist / argument / subscript_list / subscript")],["tree or rejection"])
p("C31","Comprehensions keep their element, clauses and conditions",
  "List, set, dictionary and generator comprehensions parse to the element (or key and value) and a chain of for and if clauses nested in source order, each with its own targets, iterable, condition and optional async. Target lists end at 'in', the iterable and conditions do not absorb a following clause, and a comprehension is accepted only where Python's grammar places it.",
  ["inputs"],"all comprehensions with any number of clauses and nesting, and their single-token edits",
  TESTS_ONE+"comprehensions with one clause and plain names are tested.",
  [E],[("comprehension","parse_expressions_comp_for / sync_comp_for / comp_if / comp_iter / testlist_comp / dictorset_maker")],["tree or rejection"])
p("C32","Function-type input parses every signature form",
  "A function signature type '(types) -> type' followed by newlines and end parses to a node holding the argument types and commas in order (stored last first), an optional starred and an optional double-starred type in their own places, and the result type. Anything else, such as a missing arrow, result or parenthesis, is rejected.",
  ["inputs"],"all signatures with any number of argument types, star forms and nested type expressions, and their single-token edits",
  "Two or three fixed signatures are tested.",
  [F,B],[("signature","parse_functions_func_type / type_list"),("entry point","parse_blocks_func_type_input")],["tree or rejection"])
p("C33","Every statement belongs to the block its indentation says",
  "In every accepted program each statement is a member of exactly the block that its line's indentation places it in, in source order, however deep the blocks nest and however many close at once; blank lines, comments and bracketed or continued lines in between do not matter. A statement indented without a preceding block header, and a header without an indented or same-line body, are rejected.",
  ["programs"],"all block structures of any shape with all kinds of block headers, one-line bodies and interspersed blank, comment, bracketed and continued lines",
  TESTS_ONE+"no test has a block with two statements after a nested block.",
  [T,S,B],[("blocks","parse_statements_suite / parse_blocks_func_body_suite and Indent/Dedent tokens")],["block membership in the tree"])
p("C34","Each rule function reads exactly one construct from where the parser stands",
  "The public rule functions of the parser (atom, atom_expr, power, factor, term, arith, shift, and_expr, xor_expr, expr, star_expr, comparison, not_test, and_test, or_test, test, named_expression, stmt), called on a parser standing at any token, read the longest construct of that rule that begins there and nothing behind it, give the same tree with the same spans as that construct has within a program, and leave the parser at the first token behind it: rules called one after another on one parser, with single tokens skipped by advance in between, read one construct after another, and the file entry point called afterwards reads the rest. Where no construct of the rule begins, or a started one is not completed, the call is an error. (The state of the parser after an error, and what happens when the next token is a lexical error, are not part of this.)",
  ["programs","histories"],"all texts, all sequences of rule calls and single steps on one parser",
  TESTS_ONE+"each test calls one rule once, on a text that ends with the construct, so neither what is left behind nor a second call on the same parser is seen.",
  [E,B],[("expressions","parse_expressions_atom .. parse_expressions_named_expression"),("statements","parse_statements_stmt")],["trees returned by the rule functions"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for q in props:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q)+"\n")
print(len(props))
