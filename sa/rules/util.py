"""helpers shared by the rule modules"""
from dom import *
import re


def is_call(t, rx):
    return isinstance(t, T) and t.op.startswith('call:') and re.search(rx, t.op[5:]) is not None


def calls(t, rx):
    return [x for x in subterms(t) if is_call(x, rx)]


def fact(st, t):
    f = st.facts.get(t)
    return f[1] if f is not None and f[0] == '=' else None


def ok_facts(st):
    """calls known to have returned variant 0 / 1 on this path: {term: n}"""
    r = {}
    for t, f in st.facts.items():
        if t.op == 'discr' and f[0] == '=' and f[1].op == 'i':
            r[t.a[0]] = f[1].a[0]
    return r


def payload(t, var):
    """X when t is the payload of X's variant var"""
    if t.op == 'fld' and t.a[1] == var:
        return t.a[0]
    return None


def ref_cell(st, name, v):
    c = ('rule', name)
    st.cells[c] = v
    return T('ref', (c, ()))


def outcomes(outs):
    return [o for o in outs if not o.st.dead]


def show_path(o):
    return o.v if isinstance(o.v, str) else repr(o.v)[:200]


def contains(t, x):
    return any(y is x for y in subterms(t))


def symseq(prefix, n):
    return [sym('%s%d' % (prefix, i)) for i in range(n)]


def u8syms(prefix, n):
    r = symseq(prefix, n)
    for x in r:
        U8.add(x)
    return r
