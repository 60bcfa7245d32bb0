"""Value domain: hash-consed terms (global value numbering), sequences made of known
pieces and opaque sub-sequences, and path facts (equalities, exclusions, byte domains)."""

MASK = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
        'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64, 'bool': 1, 'char': 32}
B64MASK = sum(1 << c for c in b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/-_=')
FULL = (1 << 256) - 1


class T:
    __slots__ = ('op', 'a', 'id', '_b')
    tab = {}

    def __new__(cls, op, a):
        k = (op, a)
        t = cls.tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op, t.a, t.id, t._b = op, a, len(cls.tab), 0
            cls.tab[k] = t
        return t

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (T, (self.op, self.a))


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    o, a = t.op, t.a
    if d > 14:
        return '..'
    if o == 'i':
        return str(a[0]) if a[1] != 'bool' else ('true' if a[0] else 'false')
    if o == 'sym':
        return str(a[0])
    if o == 'adt':
        return '%s%s(%s)' % (a[0], '::' + a[1] if a[1] else '', ', '.join(show(x, d + 1) for x in a[2]))
    if o == 'tup':
        return '(' + ', '.join(show(x, d + 1) for x in a) + ')'
    if o == 'seq':
        return '<' + ' '.join((repr(bytes(p[1])) if p[0] == 'b' else ('' if p[0] == 'e' else '..') + show(p[1], d + 1)) for p in a) + '>'
    if o == 'lin':
        return '+'.join(['%s*%s' % (c, show(x, d + 1)) if c != 1 else show(x, d + 1) for x, c in a[1]] + ([str(a[0])] if a[0] else []))
    if o == 'clo':
        return 'closure[%s](%s)' % (a[0], ', '.join(show(x, d + 1) for x in a[1]))
    if o == 'ref':
        return '&mut %s%s' % (a[0], ''.join('.' + str(x) for x in a[1]))
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) if isinstance(x, T) else str(x) for x in a))


def I(v, ty='usize'):
    return T('i', (int(v), ty))


def B(v):
    return T('i', (1 if v else 0, 'bool'))


TRUE, FALSE = B(True), B(False)
UNIT = T('tup', ())


def sym(n):
    return T('sym', (n,))


def app(op, *a):
    return T(op, tuple(a))


def adt(ty, var, *f):
    return T('adt', (ty, var, tuple(f)))


def some(x):
    return adt('Option', 'Some', x)


NONE = adt('Option', 'None')


def ok(x):
    return adt('Result', 'Ok', x)


def err(x):
    return adt('Result', 'Err', x)


def tup(*a):
    return T('tup', tuple(a))


def is_int(t):
    return t.op == 'i'


def is_bytes(t):
    return t.op == 'seq' and all(p[0] == 'b' for p in t.a)


def to_bytes(t):
    return b''.join(p[1] for p in t.a)


def is_adt(t, var=None):
    return t.op == 'adt' and (var is None or t.a[1] == var)


# ------------------------------------------------------------------ sequences
def seq(*pieces):
    out = []
    for p in pieces:
        k, v = p
        if k == 's':
            if v.op == 'seq':
                for q in v.a:
                    _push(out, q)
                continue
        elif k == 'e' and v.op == 'i' and v.a[1] == 'u8':
            p = ('b', bytes([v.a[0]]))
        elif k == 'b' and not v:
            continue
        _push(out, p)
    if len(out) == 1 and out[0][0] == 's':
        return out[0][1]
    # re-fuse  idx(X,n) ++ X[n+1..]   and  X[a..b] ++ X[b..c]
    return T('seq', tuple(out))


def _push(out, p):
    if out:
        q = out[-1]
        if p[0] == 'b' and q[0] == 'b':
            out[-1] = ('b', q[1] + p[1])
            return
        if p[0] == 's' and q[0] == 's' and p[1].op == 'sl' and q[1].op == 'sl' and p[1].a[0] is q[1].a[0] \
                and q[1].a[2] is p[1].a[1]:
            out[-1] = ('s', mk_slice(p[1].a[0], q[1].a[1], p[1].a[2]))
            if out[-1][1].op == 'seq':
                r = out.pop()[1]
                for z in r.a:
                    _push(out, z)
            return
        if p[0] == 's' and q[0] == 'e' and p[1].op == 'sl' and q[1].op == 'idx' and q[1].a[0] is p[1].a[0] \
                and add(q[1].a[1], I(1)) is p[1].a[1]:
            out[-1] = ('s', mk_slice(p[1].a[0], q[1].a[1], p[1].a[2]))
            return
    out.append(p)


def bseq(b):
    return seq(('b', bytes(b)))


EMPTY = T('seq', ())


def eseq(els):
    return seq(*[('e', x) for x in els])


def concat(*xs):
    return seq(*[('s', x) for x in xs])


def elems(t):
    """list of element terms when the length is known, else None"""
    if t.op != 'seq':
        return None
    out = []
    for k, v in t.a:
        if k == 'b':
            out += [I(x, 'u8') for x in v]
        elif k == 'e':
            out.append(v)
        else:
            return None
    return out


def known_len(t):
    if t.op != 'seq':
        return None
    n = 0
    for k, v in t.a:
        if k == 'b':
            n += len(v)
        elif k == 'e':
            n += 1
        else:
            return None
    return n


def expand(t):
    """a slice of constant length as its elements"""
    if t.op == 'sl' and t.a[2] is not None:
        n = length(t)
        if n.op == 'i' and 0 <= n.a[0] <= 16:
            return eseq([index(t, I(k)) for k in range(n.a[0])])
    return t


FIXLEN = {'to_be_bytes:u16': 2}


def length(t):
    if t.op == 'seq':
        n, rest = 0, []
        for k, v in t.a:
            if k == 'b':
                n += len(v)
            elif k == 'e':
                n += 1
            else:
                rest.append(length(v))
        r = I(n)
        for x in rest:
            r = add(r, x)
        return r
    if t.op == 'sl':
        if t.a[2] is None:
            return sub(length(t.a[0]), t.a[1])
        return sub(t.a[2], t.a[1])
    if t.op == 'rep':
        return t.a[1]
    if t.op in ('ints', 'arr'):
        return I(t.a[-1]) if isinstance(t.a[-1], int) else t.a[-1]
    if t.op == 'store':
        return length(t.a[0])
    if t.op in ('to_be', 'to_le', 'to_ne') and t.a[-1] in MASK:
        return I(MASK[t.a[-1]] // 8)
    return app('len', t)


def mk_slice(x, lo, hi):
    """x[lo..hi] (hi None = to the end); bounds are the caller's concern"""
    if lo.op == 'i' and lo.a[0] == 0 and (hi is None or hi is length(x)):
        return x
    if hi is not None and hi is lo:
        return EMPTY
    if x.op == 'seq' and lo.op == 'i' and (hi is None or hi.op == 'i'):
        l, h = lo.a[0], None if hi is None else hi.a[0]
        out, pos = [], 0
        okk = True
        for i, (k, v) in enumerate(x.a):
            if h is not None and pos >= h:
                break
            if k == 'b':
                s, e = max(l - pos, 0), len(v) if h is None else min(len(v), h - pos)
                if s < e:
                    out.append(('b', v[s:e]))
                pos += len(v)
            elif k == 'e':
                if pos >= l:
                    out.append((k, v))
                pos += 1
            elif length(v).op == 'i':
                n = length(v).a[0]
                s, e = max(l - pos, 0), n if h is None else min(n, h - pos)
                if s < e:
                    out.append((k, mk_slice(v, I(s), None if e == n else I(e))))
                pos += n
            else:
                if pos >= l and h is None:
                    out.append((k, v))
                    out += x.a[i + 1:]
                    return seq(*out)
                if h is None and i == len(x.a) - 1:
                    out.append(('s', mk_slice(v, I(max(l - pos, 0)), None)))
                    return seq(*out)
                okk = False
                break
        if okk:
            return seq(*out)
    if x.op == 'seq' and lo.op == 'i' and hi is not None:
        # prefix of symbolic length: cut whole pieces while possible
        r = mk_slice(x, lo, None)
        if r is not x:
            return mk_slice(r, I(0), sub(hi, lo)) if length(r) is not sub(hi, lo) else r
        if x.a and x.a[0][0] == 's':
            l0 = length(x.a[0][1])
            if l0 is hi:
                return mk_slice(x.a[0][1], lo, None) if not (lo.a[0] == 0) else x.a[0][1]
    if x.op == 'seq' and hi is None and lo.op != 'i':
        acc = I(0)
        for i, (k, v) in enumerate(x.a):
            acc = add(acc, length(T('seq', (x.a[i],)) if k != 's' else v))
            if acc is lo:
                return seq(*x.a[i + 1:])
    if x.op == 'sl':
        nlo = add(x.a[1], lo)
        nhi = x.a[2] if hi is None else add(x.a[1], hi)
        return mk_slice(x.a[0], nlo, nhi)
    if x.op == 'rep':
        n = sub(x.a[1] if hi is None else hi, lo)
        return rep(x.a[0], n)
    return app('sl', x, lo, hi)


def rep(e, n):
    if n.op == 'i' and n.a[0] <= 4096:
        if e.op == 'i' and e.a[1] == 'u8':
            return bseq(bytes([e.a[0]]) * n.a[0])
        return eseq([e] * n.a[0])
    return app('rep', e, n)


def index(x, i):
    if x.op == 'seq' and i.op == 'i':
        pos = 0
        n = i.a[0]
        for k, v in x.a:
            if k == 'b':
                if n < pos + len(v):
                    return I(v[n - pos], 'u8')
                pos += len(v)
            elif k == 'e':
                if n == pos:
                    return v
                pos += 1
            else:
                if pos == n or v is x.a[-1][1]:
                    return index(v, I(n - pos))
                m = length(v)
                if m.op != 'i':
                    break
                if n < pos + m.a[0]:
                    return index(v, I(n - pos))
                pos += m.a[0]
    if x.op == 'store' and i.op == 'i' and x.a[1].op == 'i':
        return x.a[2] if x.a[1].a[0] == i.a[0] else index(x.a[0], i)
    if x.op == 'sl':
        return index(x.a[0], add(x.a[1], i))
    if x.op == 'rep':
        return x.a[0]
    return app('idx', x, i)


# ------------------------------------------------------------------ arithmetic
def _lin(t):
    if t.op == 'lin':
        return t.a[0], dict(t.a[1]), t.a[2]
    if t.op == 'i':
        return t.a[0], {}, t.a[1]
    return 0, {t: 1}, None


def mklin(c, d, ty):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return I(c, ty or 'usize')
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return T('lin', (c, tuple(sorted(d.items(), key=lambda x: x[0].id)), ty or 'usize'))


def add(a, b, sgn=1):
    c1, d1, t1 = _lin(a)
    c2, d2, t2 = _lin(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + sgn * v
    return mklin(c1 + sgn * c2, d, t1 or t2)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, d, t = _lin(a)
    return mklin(c * n, {k: v * n for k, v in d.items()}, t)


def signed(ty):
    return ty[0] == 'i'


def wrap(v, ty):
    w = MASK.get(ty)
    if w is None:
        return v
    v &= (1 << w) - 1
    if signed(ty) and v >> (w - 1):
        v -= 1 << w
    return v


def in_range(v, ty):
    return wrap(v, ty) == v


# --------------------------------------------------------- pointwise evaluation
def bases(t):
    """set of opaque leaves (non constant, non arithmetic) the int/bool term depends on"""
    if t._b != 0:
        return t._b
    if t.op == 'i':
        r = frozenset()
    elif t.op in EVAL:
        r = frozenset()
        for x in t.a:
            if isinstance(x, T):
                if x.op == 'seq' and t.op == 'idx':
                    continue
                r |= bases(x)
    elif t.op == 'lin':
        r = frozenset()
        for x, _ in t.a[1]:
            r |= bases(x)
    elif t.op == 'len' and t.a[0].op == 'idx' and t.a[0].a[0].op == 'seq' and elems(t.a[0].a[0]) is not None:
        r = bases(t.a[0].a[1])
    elif t.op == 'idx' and is_bytes(t.a[0]):
        r = bases(t.a[1])
    elif t.op == 'idx' and t.a[0].op == 'seq' and elems(t.a[0]) is not None and bases(t.a[1]):
        r = bases(t.a[1])
    else:
        r = frozenset((t,))
    t._b = r
    return r


def ev(t, env, memo=None):
    """concrete value of a term whose bases are all in env"""
    if t.op == 'i':
        return t.a[0]
    if t in env:
        return env[t]
    if t.op == 'lin':
        return t.a[0] + sum(c * ev(x, env) for x, c in t.a[1])
    if t.op == 'idx':
        i = ev(t.a[1], env)
        x = index(t.a[0], I(i))
        if x.op != 'i':
            raise KeyError(t)
        return x.a[0]
    if t.op == 'len' and t.a[0].op == 'idx':
        x = length(index(t.a[0].a[0], I(ev(t.a[0].a[1], env))))
        if x.op != 'i':
            raise KeyError(t)
        return x.a[0]
    f = EVAL[t.op]
    return f(t, env)


def _e2(f):
    return lambda t, env: f(ev(t.a[0], env), ev(t.a[1], env))


EVAL = {
    'Eq': _e2(lambda a, b: int(a == b)), 'Lt': _e2(lambda a, b: int(a < b)),
    'not': lambda t, env: 1 - ev(t.a[0], env),
    'BitAnd': _e2(lambda a, b: a & b), 'BitOr': _e2(lambda a, b: a | b), 'BitXor': _e2(lambda a, b: a ^ b),
    'Shr': _e2(lambda a, b: a >> b),
    'Shl': lambda t, env: wrap(ev(t.a[0], env) << ev(t.a[1], env), t.a[2]),
    'Mul': lambda t, env: wrap(ev(t.a[0], env) * ev(t.a[1], env), t.a[2]),
    'Div': _e2(lambda a, b: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1) if b else 0),
    'Rem': _e2(lambda a, b: (abs(a) % abs(b)) * (1 if a >= 0 else -1) if b else 0),
    'cast': lambda t, env: wrap(ev(t.a[0], env), t.a[1]),
    'wrap': lambda t, env: wrap(ev(t.a[0], env), t.a[1]),
    'ovf': lambda t, env: int(not in_range(ev(t.a[0], env), t.a[1])),
    'ite': lambda t, env: ev(t.a[1], env) if ev(t.a[0], env) else ev(t.a[2], env),
}


def NOT(t):
    if t.op == 'i':
        return B(not t.a[0])
    if t.op == 'not':
        return t.a[0]
    return app('not', t)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'i' and b.op == 'i':
        return B(a.a[0] == b.a[0])
    d = sub(a, b) if a.op in ('lin',) or b.op == 'lin' else None
    if d is not None and d.op == 'i':
        return B(d.a[0] == 0)
    if b.op == 'i' or a.id > b.id and a.op != 'i':
        return app('Eq', a, b) if b.op == 'i' else app('Eq', b, a)
    return app('Eq', b, a) if a.op == 'i' else app('Eq', a, b)


def lt(a, b, ty=None):
    if a is b:
        return FALSE
    if a.op == 'i' and b.op == 'i':
        return B(a.a[0] < b.a[0])
    d = sub(a, b)
    if d.op == 'i':
        return B(d.a[0] < 0)
    if b.op == 'i' and b.a[0] == 0 and not signed(b.a[1]):
        return FALSE
    if b.op == 'i' and b.a[0] == 1 and not signed(b.a[1]):
        return eq(a, I(0, b.a[1]))
    if a.op == 'i' and a.a[0] == 0 and not signed(a.a[1]):
        return NOT(eq(b, a))
    return app('Lt', a, b)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ('i', 'sym', 'fn'):
        return t
    if t.op == 'seq':
        r = seq(*[(k, subst(v, m, memo) if k != 'b' else v) for k, v in t.a])
    elif t.op == 'lin':
        r = I(t.a[0], t.a[2])
        for x, c in t.a[1]:
            r = add(r, scale(subst(x, m, memo), c))
    elif t.op in ('adt',):
        r = T('adt', (t.a[0], t.a[1], tuple(subst(x, m, memo) for x in t.a[2])))
    elif t.op == 'clo':
        r = T('clo', (t.a[0], tuple(subst(x, m, memo) for x in t.a[1])) + t.a[2:])
    elif t.op == 'ref':
        r = t
    else:
        na = tuple(subst(x, m, memo) if isinstance(x, T) else x for x in t.a)
        if na == t.a:
            r = t
        else:
            r = rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == 'sl':
        return mk_slice(*a)
    if op == 'idx':
        return index(*a)
    if op == 'len':
        return length(a[0])
    if op == 'Eq':
        return eq(*a)
    if op == 'Lt':
        return lt(*a)
    if op == 'not':
        return NOT(a[0])
    if op == 'rep':
        return rep(*a)
    t = T(op, a)
    if op in EVAL and not bases(t):
        try:
            v = ev(t, {})
            return I(v, a[-1] if isinstance(a[-1], str) else ('bool' if op in ('ovf',) else a[0].a[1]))
        except (KeyError, ZeroDivisionError):
            pass
    return t


def subterms(t, seen=None):
    """all sub-terms"""
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        out.append(x)
        if x.op == 'seq':
            st += [v for k, v in x.a if k != 'b']
        elif x.op == 'lin':
            st += [v for v, _ in x.a[1]]
        elif x.op == 'adt':
            st += x.a[2]
        elif x.op == 'clo':
            st += x.a[1]
        else:
            st += [y for y in x.a if isinstance(y, T)]
            for y in x.a:
                if isinstance(y, tuple):
                    st += [z for z in y if isinstance(z, T)]
    return out


# ------------------------------------------------------------------------ state
class State:
    __slots__ = ('cells', 'facts', 'ghost', 'log', 'dead', 'entry')

    def __init__(self):
        self.cells = {}      # cell id -> T
        self.facts = {}      # T -> ('=',T) | ('dom', mask) | ('ne', frozenset)
        self.ghost = {}
        self.log = ()
        self.dead = False

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.facts = dict(self.facts)
        s.ghost = dict(self.ghost)
        s.log = self.log
        return s

    def key(self):
        return (frozenset(self.cells.items()), frozenset(self.facts.items()), frozenset(self.ghost.items()), self.log)

    def byte_mask(self, v):
        """set of byte values that can occur in the sequence v (FULL when unknown)"""
        if v.op == 'idx' and v.a[0].op == 'seq':
            es = elems(v.a[0])
            if es is None:
                return FULL
            m = 0
            ib = v.a[1]
            bs = bases(ib)
            sel = range(len(es))
            if len(bs) == 1:
                b, = bs
                try:
                    d = self.dom(b)
                    sel = {ev(ib, {b: k}) for k in range(256) if d >> k & 1}
                except (KeyError, ZeroDivisionError):
                    pass
            for i in sel:
                if i < len(es) and es[i].op in ('seq', 'idx', 'sl'):
                    m |= self.byte_mask(es[i])
                else:
                    return FULL
            return m
        if v.op == 'sl':
            f = self.facts.get(app('alldom', v))
            return self.byte_mask(v.a[0]) & (f[1] if f is not None and f[0] == 'dom' else FULL)
        if v.op in ('b64e', 'b64'):
            return B64MASK
        if v.op == 'rep':
            return self.dom(v.a[0]) if v.a[0].op != 'i' else 1 << v.a[0].a[0]
        if v.op == 'seq':
            m = 0
            for k, x in v.a:
                if k == 'b':
                    for c in x:
                        m |= 1 << c
                elif k == 'e':
                    m |= self.elem_mask(x)
                else:
                    m |= self.byte_mask(x)
                if m == FULL:
                    break
            return m
        f = self.facts.get(app('alldom', v))
        return f[1] if f is not None and f[0] == 'dom' else FULL

    def elem_mask(self, x):
        x = self.norm(x)
        if x.op == 'i':
            return 1 << x.a[0] if 0 <= x.a[0] < 256 else FULL
        bs = bases(x)
        if len(bs) == 1:
            b, = bs
            d = self.dom(b)
            if d == FULL and b not in U8:
                return FULL
            m = 0
            try:
                for k in range(256):
                    if d >> k & 1:
                        m |= 1 << ev(x, {b: k})
                return m
            except (KeyError, ZeroDivisionError, ValueError):
                return FULL
        return FULL

    # -- facts -----------------------------------------------------------
    def norm(self, t, d=0):
        """rewrite with known equalities (shallow, congruence through the usual operators)"""
        f = self.facts.get(t)
        if f is not None and f[0] == '=':
            return f[1]
        if t.op in ('i', 'sym', 'fn', 'ref', 'clo') or d > 6:
            return t
        if t.op in EVAL or t.op in ('lin', 'sl', 'len', 'idx'):
            bs = bases(t)
            if len(bs) == 1:
                b, = bs
                fb = self.facts.get(b)
                if fb is not None:
                    if fb[0] == '=' and fb[1].op == 'i' and t is not b:
                        try:
                            return self._int(t, ev(t, {b: fb[1].a[0]}))
                        except KeyError:
                            pass
                    if fb[0] == 'dom' and t is not b:
                        v = self.points(t, b, fb[1])
                        if v is not None and len(v) == 1:
                            return self._int(t, v.pop())
            if t.op == 'lin':
                r = I(t.a[0], t.a[2])
                ch = False
                for x, c in t.a[1]:
                    y = self.norm(x, d + 1)
                    ch |= y is not x
                    r = add(r, scale(y, c))
                return r if ch else t
            na = tuple(self.norm(x, d + 1) if isinstance(x, T) and x.op not in ('seq', 'adt') else x for x in t.a)
            if na != t.a:
                r = rebuild(t.op, na)
                f = self.facts.get(r)
                if f is not None and f[0] == '=':
                    return f[1]
                return r
        return t

    def _int(self, t, v):
        if t.op in ('Eq', 'Lt', 'not', 'ovf'):
            return B(v)
        ty = t.a[-1] if t.op in ('cast', 'wrap', 'Shl', 'Mul') else None
        if ty is None:
            ty = t.a[2] if t.op == 'lin' else 'u8' if t.op == 'idx' else self._ty(t)
        return I(v, ty)

    def _ty(self, t):
        for x in t.a:
            if isinstance(x, T):
                if x.op == 'i':
                    return x.a[1]
                if x.op == 'lin':
                    return x.a[2]
        return 'u8'

    def points(self, t, b, mask):
        out = set()
        try:
            for v in range(256):
                if mask >> v & 1:
                    out.add(ev(t, {b: v}))
                    if len(out) > 8:
                        return None
        except (KeyError, ZeroDivisionError):
            return None
        return out

    def values(self, t, b, mask):
        r = VALUES.get((t, mask))
        if r is None:
            if len(VALUES) > 100000:
                VALUES.clear()
            r = VALUES[t, mask] = {ev(t, {b: v}) for v in range(256) if mask >> v & 1}
        return r

    def dom(self, b):
        f = self.facts.get(b)
        if f is None:
            return FULL
        if f[0] == '=' and f[1].op == 'i':
            return 1 << f[1].a[0] if 0 <= f[1].a[0] < 256 else FULL
        if f[0] == 'dom':
            return f[1]
        if f[0] == 'ne':
            m = FULL
            for v in f[1]:
                if isinstance(v, int) and 0 <= v < 256:
                    m &= ~(1 << v)
            return m
        return FULL

    def set_dom(self, b, m):
        if m == 0:
            self.dead = True
            return False
        if m & (m - 1) == 0:
            self.facts[b] = ('=', I(m.bit_length() - 1, 'u8'))
        else:
            self.facts[b] = ('dom', m)
        return True

    def assume(self, t, val, u8=None):
        """record that t has constant value val (T int); False if contradictory"""
        t = self.norm(t)
        if t.op == 'i':
            return t.a[0] == val.a[0]
        if t.op == 'not':
            return self.assume(t.a[0], B(not val.a[0]))
        bs = bases(t)
        if len(bs) == 1:
            b, = bs
            if is_u8(b, t, self):
                m = self.dom(b)
                n = 0
                try:
                    for v in range(256):
                        if m >> v & 1 and ev(t, {b: v}) == val.a[0]:
                            n |= 1 << v
                    if t is not b and n == m:
                        return True
                    return self.set_dom(b, n)
                except (KeyError, ZeroDivisionError):
                    pass
        f = self.facts.get(t)
        if f is not None and f[0] == 'ne' and val.a[0] in f[1]:
            return False
        if f is not None and f[0] == 'dom' and not f[1] >> val.a[0] & 1:
            return False
        if t.op == 'lin' and len(t.a[1]) == 1 and val.op == 'i':
            (x, c), = t.a[1]
            q, r = divmod(val.a[0] - t.a[0], c)
            if r == 0:
                return self.assume(x, I(q, t.a[2]))
        self.facts[t] = ('=', val)
        if t.op == 'Eq' and val.a[0]:
            a, b = t.a
            if b.op == 'i':
                return self.assume(a, b)
            if a.op in ('i',):
                return self.assume(b, a)
        elif t.op == 'Eq' and not val.a[0] and t.a[1].op == 'i':
            return self.exclude(t.a[0], t.a[1].a[0])
        if t.op == 'Lt' and not self.lt_consistent(t, val.a[0]):
            return False
        return True

    def lt_consistent(self, t, v):
        if len(self.facts) > 4000:
            return True
        a, b = t.a
        if v:
            f = self.facts.get(app('Lt', b, a))
            if f is not None and f[0] == '=' and f[1].a[0] == 1:
                return False
        return self.interval_ok(t)

    def interval_ok(self, t):
        """unary bounds: a < c and c' <= a with c' >= c is a contradiction"""
        for x in t.a:
            if x.op in ('i',):
                continue
            lo, hi = self.bounds(x)
            if lo is not None and hi is not None and lo > hi:
                return False
        return True

    def bounds(self, x):
        """constant bounds of an opaque integer from recorded comparisons"""
        lo = hi = None
        f = self.facts.get(x)
        if f is not None and f[0] == '=' and f[1].op == 'i':
            return f[1].a[0], f[1].a[0]
        if f is not None and f[0] == 'dom':
            return (f[1] & -f[1]).bit_length() - 1, f[1].bit_length() - 1
        ne = f[1] if f is not None and f[0] == 'ne' else ()
        if x.op in EVAL and x not in U8:
            bs = bases(x)
            if len(bs) == 1:
                b, = bs
                if b is not x and is_u8(b, x, self):
                    try:
                        vs = self.values(x, b, self.dom(b))
                        return min(vs), max(vs)
                    except (KeyError, ZeroDivisionError, ValueError):
                        pass
        if x.op == 'lin':
            lo, hi = self.lin_bounds(x, ty_hint=x.a[2])
        elif x.op == 'len':
            lo, hi = 0, MAXLEN
            if x.a[0].op == 'b64e':
                n = length(x.a[0].a[1])
                m = n.a[0] if n.op == 'i' else self.bounds(n)[0] or 0
                lo = (4 * m + 2) // 3
        elif x.op == 'fld' and x.a[1] == 'Ok' and x.a[0].op in ('parse', 'parse_radix') and x.a[0].a[-1] in MASK:
            w = MASK[x.a[0].a[-1]]
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if signed(x.a[0].a[-1]) else (0, (1 << w) - 1)
        elif x in COUNTERS:
            lo, hi = COUNTERS[x]
        elif x in U8:
            lo, hi = 0, 255
        elif x.op == 'cast' and x.a[0] in U8:
            return self.bounds(x.a[0])
        elif x.op in ('cast', 'wrap') and x.a[1] in UNSIGNED:
            lo, hi = 0, (1 << MASK[x.a[1]]) - 1
        elif x.op == 'BitAnd' and x.a[0].op == 'i':
            lo, hi = 0, x.a[0].a[0]
        elif x.op == 'Shr' and x.a[1].op == 'i' and x.a[0] in U8:
            lo, hi = 0, 255 >> x.a[1].a[0]
        for t, f in self.facts.items():
            if t.op == 'ovf' and t.a[0] is x and t.a[1] in MASK and f[0] == '=' and not f[1].a[0]:
                w = MASK[t.a[1]]
                l, h = (-(1 << w - 1), (1 << w - 1) - 1) if signed(t.a[1]) else (0, (1 << w) - 1)
                lo, hi = (l if lo is None else max(lo, l)), (h if hi is None else min(hi, h))
            if t.op == 'Lt' and f[0] == '=':
                a, b = t.a
                if a is x:
                    v = b.a[0] if b.op == 'i' else self.pinned(b)
                    if v is not None:
                        if f[1].a[0]:
                            hi = v - 1 if hi is None else min(hi, v - 1)
                        else:
                            lo = v if lo is None else max(lo, v)
                elif b is x:
                    v = a.a[0] if a.op == 'i' else self.pinned(a)
                    if v is not None:
                        if f[1].a[0]:
                            lo = v + 1 if lo is None else max(lo, v + 1)
                        else:
                            hi = v if hi is None else min(hi, v)
        while lo is not None and lo in ne:
            lo += 1
        while hi is not None and hi in ne:
            hi -= 1
        return lo, hi

    def pinned(self, x):
        f = self.facts.get(x)
        return f[1].a[0] if f is not None and f[0] == '=' and f[1].op == 'i' else None

    def lin_bounds(self, x, ty_hint=None):
        lo = hi = x.a[0]
        for b, c in x.a[1]:
            bl, bh = self.bounds(b)
            if bh is None and x.a[2] in UNSIGNED:
                bh = (1 << MASK[x.a[2]]) - 1
            if bl is None and x.a[2] in UNSIGNED:
                bl = 0
                f = self.facts.get(b)
                while f is not None and f[0] == 'ne' and bl in f[1]:
                    bl += 1
            if c < 0:
                bl, bh = bh, bl
            lo = None if lo is None or bl is None else lo + c * bl
            hi = None if hi is None or bh is None else hi + c * bh
        return lo, hi

    def len_classes(self):
        """len term -> representative, from recorded equalities between lengths"""
        up = {}
        for t, f in self.facts.items():
            if t.op == 'Eq' and f[0] == '=' and f[1].op == 'i' and f[1].a[0] and t.a[0].op == 'len' and t.a[1].op == 'len':
                a, b = t.a
                while a in up:
                    a = up[a]
                while b in up:
                    b = up[b]
                if a is not b:
                    up[b] = a
        return up

    def diff_bounds(self, d):
        """bounds of a linear difference, using one recorded comparison"""
        lo, hi = (d.a[0], d.a[0]) if d.op == 'i' else self.lin_bounds(d) if d.op == 'lin' else self.bounds(d)
        if d.op == 'i':
            return lo, hi
        eqs = self.len_classes()
        if eqs:
            d = relen(d, eqs)
            if d.op == 'i':
                return d.a[0], d.a[0]
        for t, f in list(self.facts.items()):
            if t.op != 'Lt' or f[0] != '=' or f[1].op != 'i':
                continue
            a, b = t.a
            if a.op == 'i' and b.op == 'i':
                continue
            e = sub(b, a)
            if eqs:
                e = relen(e, eqs)
            if f[1].a[0]:
                emin, emax = 1, None
            else:
                emin, emax = None, 0
            for s in (1, -1):
                r = sub(d, e) if s == 1 else add(d, e)
                rl, rh = (r.a[0], r.a[0]) if r.op == 'i' else self.lin_bounds(r) if r.op == 'lin' else (None, None)
                if r.op == 'lin' and len(r.a[1]) >= len(d.a[1] if d.op == 'lin' else (1,)) and rl is None and rh is None:
                    continue
                el, eh = (emin, emax) if s == 1 else (None if emax is None else -emax, None if emin is None else -emin)
                if el is not None and rl is not None:
                    lo = el + rl if lo is None else max(lo, el + rl)
                if eh is not None and rh is not None:
                    hi = eh + rh if hi is None else min(hi, eh + rh)
        if d.op == 'lin':
            for t, f in self.facts.items():
                if f[0] == 'ne' and t.op == 'lin':
                    c = sub(d, t)
                    ex = {v + c.a[0] for v in f[1]} if c.op == 'i' else ()
                    if not ex:
                        c = add(d, t)
                        ex = {c.a[0] - v for v in f[1]} if c.op == 'i' else ()
                    while lo is not None and lo in ex:
                        lo += 1
                    while hi is not None and hi in ex:
                        hi -= 1
        return lo, hi

    def exclude(self, t, v):
        t = self.norm(t)
        if t.op == 'i':
            return t.a[0] != v
        bs = bases(t)
        if len(bs) == 1:
            b, = bs
            if is_u8(b, t, self):
                m = self.dom(b)
                n = 0
                try:
                    for k in range(256):
                        if m >> k & 1 and ev(t, {b: k}) != v:
                            n |= 1 << k
                    return self.set_dom(b, n)
                except (KeyError, ZeroDivisionError):
                    pass
        if t.op == 'lin' and len(t.a[1]) == 1:
            (x, c), = t.a[1]
            q, r = divmod(v - t.a[0], c)
            if r == 0:
                return self.exclude(x, q)
        f = self.facts.get(t)
        if f is None:
            self.facts[t] = ('ne', frozenset((v,)))
        elif f[0] == 'ne':
            self.facts[t] = ('ne', f[1] | {v})
        elif f[0] == '=':
            return f[1].a[0] != v
        elif f[0] == 'dom':
            return self.set_dom(t, f[1] & ~(1 << v))
        if t.op not in ('Lt', 'Eq'):
            lo, hi = self.bounds(t)
            if lo is not None and hi is not None and lo > hi:
                return False
        return True

    def decide(self, t):
        """True/False/None"""
        t = self.norm(t)
        if t.op == 'i':
            return bool(t.a[0])
        if t.op == 'not':
            r = self.decide(t.a[0])
            return None if r is None else not r
        if t.op == 'Eq':
            a, b = t.a
            if b.op == 'i':
                f = self.facts.get(a)
                if f is not None:
                    if f[0] == 'ne' and b.a[0] in f[1]:
                        return False
                    if f[0] == 'dom' and not (0 <= b.a[0] < 256 and f[1] >> b.a[0] & 1):
                        return False
                if a.op in ('from_le', 'from_be'):
                    xs = elems(a.a[0])
                    if xs is not None and len(xs) <= 16 and b.a[0] >= 0:
                        ys = b.a[0].to_bytes(16, 'little')
                        ys = ys[:len(xs)] if a.op == 'from_le' else ys[:len(xs)][::-1]
                        if any(self.decide(eq(x, I(y, 'u8'))) is False for x, y in zip(xs, ys)):
                            return False
            elif haslen(sub(a, b)) if sub(a, b).op == 'lin' else False:
                up = self.len_classes()
                if up:
                    d = relen(sub(a, b), up)
                    if d.op == 'i':
                        return d.a[0] == 0
            if b.op == 'i':
                lo, hi = self.bounds(a)
                if lo is not None and b.a[0] < lo or hi is not None and b.a[0] > hi:
                    return False
        if t.op == 'Lt':
            a, b = t.a
            la, ha = (a.a[0], a.a[0]) if a.op == 'i' else self.bounds(a)
            lb, hb = (b.a[0], b.a[0]) if b.op == 'i' else self.bounds(b)
            if ha is not None and lb is not None and ha < lb:
                return True
            if la is not None and hb is not None and la >= hb:
                return False
            d = sub(b, a)
            if d.op == 'lin' and haslen(d):
                lo, hi = self.diff_bounds(d)
                if lo is not None and lo >= 1:
                    return True
                if hi is not None and hi <= 0:
                    return False
        if t.op == 'ovf' and t.a[1] in MASK:
            x = t.a[0]
            lo, hi = self.diff_bounds(x) if x.op == 'lin' and haslen(x) else self.lin_bounds(x) if x.op == 'lin' else self.bounds(x)
            w = MASK[t.a[1]]
            tl, th = (-(1 << w - 1), (1 << w - 1) - 1) if signed(t.a[1]) else (0, (1 << w) - 1)
            if lo is not None and hi is not None and lo >= tl and hi <= th:
                return False
            if lo is not None and lo > th or hi is not None and hi < tl:
                return True
        bs = bases(t)
        if len(bs) == 1 and t.op in EVAL:
            b, = bs
            if is_u8(b, t, self):
                v = self.points(t, b, self.dom(b))
                if v is not None and len(v) == 1:
                    return bool(v.pop())
        return None


UNSIGNED = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize')
VALUES = {}
U8 = set()      # terms known to be bytes
COUNTERS = {}        # loop phis that start at a constant and move by small constants
MAXCOUNT = (1 << 31) - (1 << 17)    # iterations a loop is assumed to stay below
MAXLEN = 1 << 47        # no allocation or slice can exceed the user address space


def relen(d, eqs):
    if d.op == 'lin' and any(b in eqs for b, _ in d.a[1]):
        r = I(d.a[0], d.a[2])
        for b, c in d.a[1]:
            while b in eqs:
                b = eqs[b]
            r = add(r, scale(b, c))
        return r
    while d in eqs:
        d = eqs[d]
    return d


def haslen(d):
    return any(b.op in ('len', 'phi', 'fld') for b, _ in d.a[1])


def is_u8(b, t, st):
    if b in U8:
        return True
    f = st.facts.get(b)
    if f is not None and f[0] == 'dom':
        return True
    # compared with / combined with an u8 constant directly
    if t is not b:
        for x in subterms(t):
            if x.op in ('Eq', 'Lt', 'BitAnd', 'BitOr', 'BitXor', 'lin', 'Shr') and b in [y for y in x.a if isinstance(y, T)] + (
                    [y for y, _ in x.a[1]] if x.op == 'lin' else []):
                for y in x.a:
                    if isinstance(y, T) and y.op == 'i' and y.a[1] == 'u8':
                        U8.add(b)
                        return True
                    if y == 'u8':
                        U8.add(b)
                        return True
    return False
