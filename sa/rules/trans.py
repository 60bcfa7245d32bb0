"""Helpers for rules about text: outcome tables over inputs of known length, and the step
relation of loops that consume an input of any length (cursor loops)."""
from dom import *
import itertools


def table(ctx, body, env, n, alpha=None, rest=(), prefix='q', st=None, arg=None, **kw):
    """interpret body on a byte string of n symbolic bytes (restricted to alpha); -> (syms, outcomes, interp)"""
    qs = [sym('%s%d' % (prefix, i)) for i in range(n)]
    st = st or State()
    for q in qs:
        U8.add(q)
        if alpha is not None:
            st.facts[q] = ('dom', sum(1 << a for a in set(alpha)))
    I_ = ctx.interp(part=40000, unroll_width=20000, recursion=12, table=True, **kw)
    a0 = eseq(qs)
    outs = I_.run_body(body, env, [arg(a0) if arg else a0] + list(rest), st, None)
    return qs, [o for o in outs if not o.st.dead], I_


def consistent(st, env, extra=()):
    """can the path condition of st hold when the terms in env have the given values?
    facts over other terms are taken as possible"""
    for t, f in list(st.facts.items()) + list(extra):
        if f[0] in ('=', 'dom', 'ne'):
            if t.op == 'is_utf8' and f[0] == '=' and f[1].op == 'i':
                b = as_lit(subst(t.a[0], {k: I(v, 'u8') for k, v in env.items()}))
                if b is not None:
                    try:
                        b.decode('utf-8')
                        b = 1
                    except UnicodeDecodeError:
                        b = 0
                    if b != f[1].a[0]:
                        return False
                continue
            if t.op in ('alldom', 'forall') or t.op.startswith('call:'):
                continue
            bs = bases(t)
            if not bs or not all(b in env for b in bs):
                continue
            try:
                v = ev(t, env)
            except KeyError:
                continue
            if f[0] == '=':
                if f[1].op == 'i' and f[1].a[0] != v:
                    return False
            elif f[0] == 'dom':
                if not (f[1] >> v) & 1:
                    return False
            elif v in f[1]:
                return False
    return True


def mask_of(st, q):
    f = st.facts.get(q)
    if f is None:
        return FULL
    if f[0] == 'dom':
        return f[1]
    if f[0] == '=' and f[1].op == 'i':
        return 1 << f[1].a[0]
    if f[0] == 'ne':
        m = FULL
        for v in f[1]:
            m &= ~(1 << v)
        return m
    return FULL


FULL = (1 << 256) - 1


def words(qs, o, alpha):
    """all words over alpha that satisfy the outcome's path condition"""
    alpha = sorted(set(alpha))
    sel = [[a for a in alpha if (mask_of(o.st, q) >> a) & 1] for q in qs]
    simple = all(t in qs for t in o.st.facts)
    for w in itertools.product(*sel):
        if simple or consistent(o.st, dict(zip(qs, w))):
            yield w


def inst(v, qs, w):
    return subst(v, {q: I(b, 'u8') for q, b in zip(qs, w)})


def as_lit(v):
    """python bytes of a literal sequence term, else None"""
    if v.op == 'seq' or is_bytes(v):
        try:
            b = to_bytes(v)
            if b is not None:
                return bytes(b)
        except Exception:
            pass
        es = elems(v)
        if es is not None and all(e.op == 'i' for e in es):
            return bytes(e.a[0] for e in es)
    return None


# ------------------------------------------------------------------ cursor loops
def _children(v):
    if v.op == 'adt':
        return [((i,), x) for i, x in enumerate(v.a[2])]
    if v.op in ('tup', 'iter'):
        return [((i,), x) for i, x in enumerate(v.a) if isinstance(x, T)]
    if v.op == 'clo':
        return [((i,), x) for i, x in enumerate(v.a[1])]
    return []


def _at(v, path):
    for i in path:
        if v is None or not isinstance(v, T):
            return None
        if v.op == 'adt':
            v = v.a[2][i] if i < len(v.a[2]) else None
        elif v.op in ('tup', 'iter'):
            v = v.a[i] if i < len(v.a) else None
        elif v.op == 'clo':
            v = v.a[1][i] if i < len(v.a[1]) else None
        else:
            return None
    return v


def phis(H):
    """[(cell, path, phi)] for every joined position of a loop head"""
    r = []
    for c, v in H.cells.items():
        st = [((), v)]
        while st:
            p, x = st.pop()
            if x.op == 'phi':
                r.append((c, p, x))
            elif len(p) < 5:
                st += [(p + q, y) for q, y in _children(x)]
    return r


class Loop:
    def __init__(self, rec):
        self.fr, self.h, self.H, self.back = rec
        self.vars = []
        ent = getattr(self.H, 'entry', None)
        for c, p, ph in phis(self.H):
            e = _at(ent.cells.get(c), p) if ent is not None and c in ent.cells else None
            bs = [_at(b.cells.get(c), p) if c in b.cells else None for b in self.back]
            self.vars.append((c, p, ph, e, bs))

    @property
    def where(self):
        return '%s loop' % self.fr.body.name


def advance(p, v):
    """k when v is p without its first k items"""
    if v is p:
        return 0
    if v is not None and v.op == 'sl' and v.a[0] is p and v.a[2] is None and v.a[1].op == 'i':
        return v.a[1].a[0]
    return None


def cursor_loops(I_, x=None):
    """loops in which some sequence variable only loses items from its front; -> [(Loop, cursor var, [k per back edge])]"""
    r = []
    for rec in I_.loops:
        L = Loop(rec)
        for var in L.vars:
            c, p, ph, e, bs = var
            ks = [advance(ph, b) for b in bs]
            if bs and all(k is not None for k in ks) and any(ks) and (x is None or e is x):
                r.append((L, var, ks))
    return r


RESET = T('sym', ('#reset',))


def appends(L, reset=False):
    """output variables of the loop: every back edge keeps them or appends to them (or, with reset, empties
    them); -> [(var, [appended seq or EMPTY or RESET])]"""
    r = []
    for var in L.vars:
        c, p, ph, e, bs = var
        out = []
        for b in bs:
            if b is ph:
                out.append(seq())
                continue
            if b is not None and b.op == 'seq' and b.a and b.a[0][1] is ph and b.a[0][0] != 'b':
                out.append(T('seq', b.a[1:]))
                continue
            if reset and b is not None and b.op == 'seq' and not b.a:
                out.append(RESET)
                continue
            out = None
            break
        if out is not None and any(o.a and o is not RESET for o in out):
            r.append((var, out))
    return r


def env_of(p, word, n=None):
    """values of the terms that describe the first bytes and length of the cursor"""
    env = {}
    for j, b in enumerate(word):
        env[index(p, I(j))] = b
    env[length(p)] = n if n is not None else len(word)
    return env
