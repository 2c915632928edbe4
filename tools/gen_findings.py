#!/usr/bin/env python3
"""Writes known_findings.txt. A finding is one failing input; a fixed line suppresses nothing."""
import json, os
L=[]
def f(prop,key,what,*inputs,entry="file",expect="accept"):
    for i in inputs: L.append(f"finding: property={prop} key={key} expect={expect} entry={entry} input={json.dumps(i)} :: {what}")
f("C23","K1","a function with parameters is rejected","def f(a): pass\n","def f(a, b=1, *c, d, **e): pass\n","def f(a: int) -> int: pass\n")
f("C14","K2","a simple statement that begins with the name 'match' is rejected","match.a\n","match\n")
f("C26","K2","an assignment that begins with the name 'match' is rejected","match = 1\n")
f("C13","K3","a yield without a value is rejected","yield\n","x = yield\n")
f("C26","K4","a starred element is rejected on the right of an assignment or annotated assignment","a = *b, c\n","a: b = *c, d\n")
f("C15","K4","a starred element is rejected in the iterable of a for statement","for a in *b, c: pass\n")
f("C15","K7","a first with item that starts with a parenthesised expression is rejected","with (a) as b: pass\n","with (a).b: pass\n")
f("C02","K6","the newline token of a final CRLF ends one past the end of the source","a\r\n",expect="positions")
f("C18","K6","positions after a final CRLF are one past the end of the source","pass\r\n",expect="positions")
f("C28","K8","a type comment after the header of a with statement is rejected","with a: # type: int\n  pass\n")
f("C19","K8","a comment beginning with '# type:' breaks the statement it stands in when no type comment may stand there","pass # type: ignore\n","# type: ignore\n")
f("C10","K9","deeply nested brackets overflow the stack","…",expect="deep",entry="eval")
f("C32","K10","a bare '*' or a trailing comma in the parameter list of a function type is rejected","(*) -> a","(a,) -> b",entry="functype")
FIX=[l.split('|') for l in '''C03|27f3b92|whitespace at the very end of source was taken as indentation
C16|6917fb4|a NUL character in the source ended it, and the rest was ignored
C27|9bad6f8|trailing comma in the parameters of a lambda was rejected
C27|45b870b|bare '*' in the parameters of a lambda was rejected
C27|24691ab|default value was accepted for '*' and '**' parameters of a lambda
C29|40d2d7f|dictionary and set comprehensions were rejected
C29|8d80181|dictionary and set entries after the first started at the first entry
C29|0cd9b2d|dictionary with more than two entries was rejected
C30|aca6cb8|slice with an omitted part was rejected before ','
C30|664b5b7|slice without a step consumed the token following its second part
C14|a563c1a|trailing comma of an expression list was rejected before '=', ':', ')' and type comment
C30|71ff105|trailing comma in a subscript was rejected
C12|f58ee16|trailing comma in a tuple or list was rejected
C31|3b0d2b2|lambda as body of a lambda inside a comprehension condition was rejected
C30|e894ffe|call arguments were parsed as subscripts
C14|6a21d9a|trailing comma in the targets of a del statement was rejected
C15|d9eefc4|target list took the 'in' of a for loop or comprehension as a comparison
C29|f326c45|empty dictionary was rejected
C24|1565e9f|trailing comma in a parenthesised import list was rejected
C22|11b66b5|'except*' without an expression was accepted
C22|1ee8b36|nested try statement changed the 'except' or 'except*' kind of the enclosing one
C15|72179ba|assignment expression was rejected as condition of if, elif and while
C15|d04f50f|'as' item of a with statement was reported as an except statement
C14|ae1315f|message of an assert statement was expected after 'from' instead of ','
C23|2ed8800|'async def' was parsed as a class definition
C24|b83d6c0|import statement recursed into itself without end
C10|bdacd9b|statement starting with 'match' panicked
C16|7251287|compound statement was never accepted as interactive input
C23|ceec608|class definition took lambda parameters instead of arguments as its bases
C23|fbb9d6b|function definition without a parameter list was accepted
C23|8321f1e|decorator never consumed its newline, so nothing could follow it
C03|1c17337|last line without a newline and blocks open at end of source were never closed
C03|b55de7e|dedent to a column matching no enclosing block was accepted
C03|8cf090c|indentation was ignored on a line following a blank or comment line
C08|73c64f9|newline trivia recorded '\\r\\n' for every kind of line ending
C07|8182447|bytes literal prefixes were not recognised
C07|e00b024|backslash escapes were not honoured inside string literals
C06|cd363f3|exponent without any digits was taken as part of a number
C06|9513205|number starting with '0' swallowed the character after the '0'
C05|e806786|'\\r\\n' newline consumed the first character of the next line'''.split('\n')]
for p,c,w in FIX: L.append(f"fixed: property={p} {c} {w}")
open(os.path.join(os.path.dirname(__file__),'..','known_findings.txt'),'w').write("# One line per failing input (finding:) or repaired defect (fixed:). Written by tools/gen_findings.py, read by the checks, never written by them.\n"+'\n'.join(L)+'\n')
