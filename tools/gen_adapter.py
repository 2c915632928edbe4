#!/usr/bin/env python3
"""Writes /verif/harness/subject/adapter.rs from the node and token declarations of /repo (run by hand when those change)."""
import re
nodes = re.findall(r'^\s*(\w+)\(\s*u32\s*,\s*u32\s*(?:,\s*(.*?))?\)\s*,?\s*$', open('/repo/src/parser/nodes.rs').read(), re.M)
def arity(s):
    d, n = 0, 1
    for ch in s:
        if ch in '<(': d += 1
        elif ch in '>)': d -= 1
        elif ch == ',' and d == 0: n += 1
    return n if s.strip().rstrip(',') else 0
toks = [m for m in re.findall(r'^\s*(Py\w+)\(', open('/repo/src/parser/tokens.rs').read(), re.M)]
o = open('/verif/tools/adapter_head.rs').read()
arms = []
for n, rest in nodes:
    rest = rest.strip().rstrip(',')
    k = arity(rest)
    v = ['a%d' % i for i in range(k)]
    arms.append('        ASTNode::%s(s, e%s) => ("%s", *s, *e, vec![%s]),' % (n, ''.join(', ' + x for x in v), n, ', '.join(x + '.kid()' for x in v)))
o = o.replace('/*NODES*/', '\n'.join(arms)).replace('/*TOKENS*/', '\n'.join('        Token::%s(s, e, t) => ("%s", *s, *e, t),' % (t, t) for t in toks))
open('/verif/harness/subject/adapter.rs', 'w').write(o)
print(len(nodes), len(toks))
