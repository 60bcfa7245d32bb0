"""C11 B64 fields, C12 endian integers, C13 padded byte fields."""
from check import rule, Missing
from dom import *
from interp import Out, Frame
from models import mk_to, mk_from, MASK, store
from rules.util import *
from rules.abe_eval import arms, abe_term, abl_term, CO, FS
from rules.abe_funcs import same_val, show_t, ForkHook, holds, engine
from rules.abe_struct import lit, Table, fact, abl, same_abl, shapes, txt, kinds_lists, drain
import random

E = 'endian_types::'
BE = [('U16', 'u16', 2), ('U32', 'u32', 4), ('U64', 'u64', 8), ('U128', 'u128', 16)]
TYPES = [(n, ty, k, 'be') for n, ty, k in BE] + [('L' + n, ty, k, 'le') for n, ty, k in BE]


def run(ctx, path, args, st=None, hooks=(), env=None, **kw):
    b, e = ctx.method('byte_fmt', path)
    e = dict(e)
    e.update(env or {})
    I_ = ctx.interp(hooks=list(hooks), **dict(dict(table=True, unroll_width=2000), **kw))
    return I_, arms(I_.run_body(b, e, list(args), st or State(), None)), b.name


def as_bytes(v):
    """literal bytes of a value, or None"""
    return to_bytes(v) if is_bytes(v) else None


class Op:
    """one operation of one type: exact for all inputs when the result is the documented term; when it is written in
    another way, every value of a grid of boundary and mixed inputs must give the documented result"""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def __call__(self, key, path, ins, want, conc, grid, wrap=lambda *a: list(a), get=lambda I_, o: I_.content(o.st, o.v)):
        """ins: symbolic inputs; want: the expected term; conc(*values) -> expected literal term; grid: tuples of literal inputs"""
        ctx = self.ctx
        I_, outs, where = run(ctx, path, wrap(*ins))
        if outs and all(o.kind == 'ret' and same_val(get(I_, o), want) for o in outs):
            self.n += 1
            return ctx.ob(key, True, 'for every input: %s' % show(want)[:120], where)
        ctx.notes.setdefault('grid_instead_of_all_inputs', []).append(key)
        bad = []
        k = 0
        for g in grid:
            I_, outs, where = run(ctx, path, wrap(*g))
            w = conc(*g)
            for o in outs or [None]:
                k += 1
                v = get(I_, o) if o is not None and o.kind == 'ret' else None
                if v is None or not same_val(v, w):
                    bad.append('%s gives %s, expected %s' % (', '.join(map(show, g)), show(v)[:80] if v is not None else 'a panic' if o else 'nothing', show(w)[:80]))
        self.n += 1
        ctx.ob(key, not bad and k >= len(grid), '; '.join(bad[:3]) or '%d inputs' % k, where)


def ints(ty):
    m = (1 << MASK[ty]) - 1
    r = random.Random(7)
    return [0, 1, 2, 127, 128, 255, 256 & m, m, m - 1, m >> 1, (m >> 1) + 1] + [r.randint(0, m) for _ in range(5)]


@rule('C12', level='proof', rule='every operation of the eight fixed-width integer types as an input/output relation over all values')
def c12(ctx):
    op = Op(ctx)
    total = 0
    for name, ty, k, e in TYPES:
        N = E + name
        m = (1 << MASK[ty]) - 1
        x = sym('x')
        bs, cs = eseq(symseq('b', k)), eseq(symseq('c', k))
        for s in list(elems(bs)) + list(elems(cs)):
            U8.add(s)
        mk = lambda v: adt(name, None, v)
        inner = lambda I_, o: I_.content(o.st, o.v).a[2][0] if is_adt2(I_.content(o.st, o.v), name) else I_.content(o.st, o.v)
        enc = lambda v: mk_to(e, v, ty)
        g, gc = mk_from(e, bs, ty), mk_from(e, cs, ty)
        gi = [(I(v, ty),) for v in ints(ty)]
        gb = [(enc(I(v, ty)),) for v in ints(ty)]
        g2 = [(a[0], b[0]) for a in gb for b in gb[::3]]
        val = lambda b: int.from_bytes(to_bytes(b), 'big' if e == 'be' else 'little')
        one = lambda v: [mk(v)]
        two = lambda a, b: [mk(a), mk(b)]
        alt = ('L' + name) if e == 'be' else name[1:]
        K = lambda s: '%s/%s' % (name, s)
        op(K('new'), N + '::new', [x], enc(x), lambda v: enc(v), gi, get=inner)
        op(K('from native'), '<%s as From<%s>>::from' % (N, ty), [x], enc(x), lambda v: enc(v), gi, get=inner)
        op(K('get'), N + '::get', [bs], g, lambda b: I(val(b), ty), gb, one)
        op(K('into native'), '<%s as Into<%s>>::into' % (N, ty), [bs], g, lambda b: I(val(b), ty), gb, one)
        op(K('other byte order'), '<%s as From<%s>>::from' % (E + alt, N), [bs], mk_to('le' if e == 'be' else 'be', g, ty), lambda b: bseq(to_bytes(b)[::-1]), gb, one,
           get=lambda I_, o: I_.content(o.st, o.v).a[2][0])
        op(K('incr'), N + '::incr', [bs], enc(app('saturating_add', g, I(1, ty), ty)), lambda b: enc(I(min(val(b) + 1, m), ty)), gb, one, get=inner)
        op(K('saturating_add'), N + '::saturating_add', [bs, cs], enc(app('saturating_add', g, gc, ty)), lambda a, b: enc(I(min(val(a) + val(b), m), ty)), g2, two, get=inner)
        op(K('saturating_sub'), N + '::saturating_sub', [bs, cs], enc(app('saturating_sub', g, gc, ty)), lambda a, b: enc(I(max(val(a) - val(b), 0), ty)), g2, two, get=inner)
        bit = lambda f: lambda *a: bseq(bytes(f(*t) & 255 for t in zip(*map(to_bytes, a))))
        le, lec = mk_from('le', bs, ty), mk_from('le', cs, ty)
        op(K('and'), '<%s as BitAnd>::bitand' % N, [bs, cs], mk_to('le', app('BitAnd', le, lec), ty), bit(lambda a, b: a & b), g2, two, get=inner)
        op(K('or'), '<%s as BitOr>::bitor' % N, [bs, cs], mk_to('le', app('BitOr', le, lec), ty), bit(lambda a, b: a | b), g2, two, get=inner)
        op(K('not'), '<%s as Not>::not' % N, [bs], mk_to('le', app('bnot', le), ty), bit(lambda a: ~a), gb, one, get=inner)
        for key, path in (('to_bytes', N + '::to_bytes'), ('into bytes', '<%s as Into<[u8;%d]>>::into' % (N, k)), ('as_ref', '<%s as AsRef<[u8]>>::as_ref' % N), ('deref', '<%s as Deref>::deref' % N)):
            op(K(key), path, [bs], bs, lambda b: b, gb, one, get=inner)
        op(K('from bytes'), '<%s as From<[u8;%d]>>::from' % (N, k), [bs], bs, lambda b: b, gb, get=inner)
        order(ctx, K, N, mk, bs, cs, g, gc, g2, val)
        st = State()
        me = ref_cell(st, 'me', mk(bs))
        I_, outs, w = run(ctx, N + '::set', [me, x], st)
        ctx.ob(K('set'), bool(outs) and all(o.kind == 'ret' and I_.content(o.st, me) is mk(enc(x)) for o in outs), show(I_.content(outs[0].st, me))[:200] if outs else 'nothing', w)
        for c, v in (('MAX', m), ('ZERO', 0)):
            I_, outs, w = run(ctx, '%s::%s' % (N, c), [])
            ctx.ob(K(c), bool(outs) and all(o.kind == 'ret' and same_val(inner(I_, o), enc(I(v, ty))) for o in outs), show_o(I_, outs), w)
        text(ctx, K, N, mk, name, ty, e, bs, g)
        lists(ctx, K, N, mk, name, ty, k, e)
        total += 24
    u8(ctx)
    # the shape check takes no self: its instances are told apart by nothing, so each must be right
    bs = [b for (c, n), v in ctx.P.bodies.items() if c == 'byte_fmt' and n.startswith('endian_types::') and n.endswith('::check') for b in v]
    ctx.floor('shape checks', len(bs), 9)
    shape(ctx, 'check', bs)
    ctx.floor('operations', op.n, 8 * 15)


def is_adt2(v, n):
    return v.op == 'adt' and n in v.a[:2]


def show_o(I_, outs):
    return '; '.join('%s %s' % (o.kind, show(I_.content(o.st, o.v))[:120] if o.kind == 'ret' else o.v[:1]) for o in outs[:3])


def order(ctx, K, N, mk, bs, cs, g, gc, g2, val):
    """cmp and partial_cmp order by value"""
    for key, path, un in (('cmp', '<%s as Ord>::cmp' % N, lambda v: v), ('partial_cmp', '<%s as PartialOrd>::partial_cmp' % N, lambda v: v.a[2][0] if is_adt(v, 'Some') else None)):
        I_, outs, w = run(ctx, path, [mk(bs), mk(cs)])
        sides = {'Less': lt(g, gc), 'Equal': eq(g, gc), 'Greater': lt(gc, g)}
        got = []
        for o in outs:
            v = un(o.v) if o.kind == 'ret' else None
            got.append(v.a[1] if v is not None and v.op == 'adt' and v.a[1] in sides and (o.st.decide(sides[v.a[1]]) is True or v.a[1] == 'Greater' and o.st.decide(sides['Less']) is False and o.st.decide(sides['Equal']) is False) else None)
        if outs and None not in got and sorted(got) == sorted(sides):
            ctx.ob(K(key), True, 'by value, for every pair', w)
            continue
        ctx.notes.setdefault('grid_instead_of_all_inputs', []).append(K(key))
        bad = []
        for a, b in g2:
            want = 'Less' if val(a) < val(b) else 'Equal' if val(a) == val(b) else 'Greater'
            I_, outs, w = run(ctx, path, [mk(a), mk(b)])
            for o in outs or [None]:
                v = un(I_.content(o.st, o.v)) if o is not None and o.kind == 'ret' else None
                if v is None or v.op != 'adt' or v.a[1] != want:
                    bad.append('%s and %s give %s, expected %s' % (show(a), show(b), show(v) if v is not None else 'nothing', want))
        ctx.ob(K(key), not bad, '; '.join(bad[:3]) or '%d pairs' % len(g2), w)


def text(ctx, K, N, mk, name, ty, e, bs, g):
    X = sym('X')
    I_, outs, w = run(ctx, '<%s as FromStr>::from_str' % N, [X])
    t = Table(ctx, K('from_str'), w)
    p = app('parse', X, ty)

    def good(o):
        v = I_.content(o.st, o.v)
        if is_adt(v, 'Err'):
            return holds(o.st, p) is False
        return holds(o.st, p) is True and is_adt(v, 'Ok') and same_val(v.a[2][0].a[2][0], mk_to(e, app('fld', p, 'Ok', 0), ty))
    t.case('any text', outs, good)
    t.done(least=2)
    st = State()
    out = ref_cell(st, 'out', seq())
    I_, outs, w = run(ctx, '<%s as std::fmt::Display>::fmt' % N, [mk(bs), out], st)
    ctx.ob(K('display'), bool(outs) and all(o.kind == 'ret' and is_adt(o.v, 'Ok') and I_.content(o.st, out) is app('dec', g, ty) for o in outs),
           show(I_.content(outs[0].st, out))[:200] if outs else 'nothing', w)
    for key, f, nm in [('to_abe', '<%s as ToABE>::to_abe' % N, name.lower())] + ([('lu_abe', N + '::lu_abe', 'lu')] if e == 'le' else []):
        I_, outs, w = run(ctx, f, [mk(bs)])
        want = abe_term([('L', [('B', lit(nm.encode())), CO, ('B', app('dec', g, ty))])])
        ctx.ob(K(key), bool(outs) and all(o.kind == 'ret' and I_.content(o.st, o.v) is want for o in outs), show_o(I_, outs), w)


def shape(ctx, key, path, env=None):
    """accepts exactly the lists without separators"""
    t = Table(ctx, key)
    bs = [ctx.method('byte_fmt', path)] if isinstance(path, str) else [(b, {}) for b in path]
    for b, e in bs:
        for its in kinds_lists(2):
            I_ = ctx.interp(table=True, unroll_width=2000)
            outs = arms(I_.run_body(b, dict(e, **(env or {})), [abe_term(its)], State(), None))
            t.case(show_t(its) + '(%d)' % len(its), outs, lambda o: is_adt(o.v, 'Err' if any(x[0] == 'C' for x in its) else 'Ok'))
            t.where = b.name
    t.done(least=10)


def lists(ctx, K, N, mk, name, ty, k, e):
    """to and from evaluated lists and slices"""
    t = Table(ctx, K('from list'))
    tr = Table(ctx, K('list round trip'))
    ts = Table(ctx, K('from slice'))
    for n in range(k + 2):
        q = eseq(symseq('q', n))
        want = q if n == k else concat(q, bseq(bytes(k - n))) if e == 'le' and n < k else None

        def good(o):
            v = I_.content(o.st, o.v)
            if want is None:
                return is_adt(v, 'Err')
            return is_adt(v, 'Ok') and same_val(v.a[2][0].a[2][0], want)
        for key, tt, path, arg in (('list', t, '<%s as TryFrom<abe::eval::ABList>>::try_from', abl_term([(None, q)])), ('slice', ts, '<%s as TryFrom<&[u8]>>::try_from', q)) \
                + ((('fit', ts, '%s::try_fit_slice', q),) if e == 'le' else ()):
            if key == 'slice' and n != k:
                want, keep = None, want
            else:
                keep = want
            I_, outs, tt.where = run(ctx, path % N, [arg])
            tt.case('%s of %d bytes' % (key, n), outs, good)
            want = keep
    want = None
    for c in shapes(3):
        if len(c) > 1 or c and c[0][0]:
            I_, outs, t.where = t.I, _, _ = run(ctx, '<%s as TryFrom<abe::eval::ABList>>::try_from' % N, [abl_term(c)])
            t.case(txt(c), outs, good)
    # n bytes up to the last one that is not null
    for n in range(k + 1):
        qs = symseq('q', n)
        st = State()
        for s in qs:
            U8.add(s)
        if n:
            st.assume(eq(qs[-1], I(0, 'u8')), FALSE)
        b = concat(eseq(qs), bseq(bytes(k - n)))
        I_, outs, tr.where = run(ctx, '<abe::eval::ABList as From<%s>>::from' % N, [mk(b)], st)
        for o in outs or [None]:
            if o is None or o.kind != 'ret':
                tr.case('%d bytes' % n, [o] if o else [], lambda o: False)
                continue
            I2, outs2, _ = run(ctx, '<%s as TryFrom<abe::eval::ABList>>::try_from' % N, [I_.content(o.st, o.v)], o.st)
            tr.case('%d bytes' % n, outs2, lambda o: is_adt(o.v, 'Ok') and same_val(I2.content(o.st, o.v).a[2][0].a[2][0], b))
    t.done(least=k + 2)
    tr.done(least=k + 1)
    ts.done(least=k + 2)


def u8(ctx):
    N = E + 'U8'
    b = sym('b')
    U8.add(b)
    t = Table(ctx, 'U8/from list')
    for n in range(4):
        q = symseq('q', n)
        I_, outs, t.where = t.I, _, _ = run(ctx, '<%s as TryFrom<abe::eval::ABList>>::try_from' % N, [abl_term([(None, eseq(q))])])
        t.case('%d bytes' % n, outs, lambda o: is_adt(o.v, 'Ok') and I_.content(o.st, o.v).a[2][0].a[2][0] is q[0] if n == 1 else is_adt(o.v, 'Err'))
    for c in shapes(2):
        if len(c) > 1 or c and c[0][0]:
            I_, outs, t.where = t.I, _, _ = run(ctx, '<%s as TryFrom<abe::eval::ABList>>::try_from' % N, [abl_term(c)])
            t.case(txt(c), outs, lambda o: is_adt(o.v, 'Err'))
    t.done(least=8)
    t = Table(ctx, 'U8/into')
    me = adt('U8', None, b)
    I_, outs, t.where = t.I, _, _ = run(ctx, '<abe::eval::ABList as From<%s>>::from' % N, [me])
    t.case('list', outs, lambda o: same_abl(abl(I_, o.st, o.v), [(None, eseq([b]))]))
    I_, outs, t.where = t.I, _, _ = run(ctx, '<u8 as From<%s>>::from' % N, [me])
    t.case('u8', outs, lambda o: o.v is b)
    I_, outs, t.where = t.I, _, _ = run(ctx, N + '::new', [b])
    t.case('new', outs, lambda o: o.v is me)
    I_, outs, t.where = t.I, _, _ = run(ctx, '<%s as ToABE>::to_abe' % N, [me])
    t.case('to_abe', outs, lambda o: I_.content(o.st, o.v) is abe_term([('L', [('B', lit(b'u8')), CO, ('B', app('dec', b, 'u8'))])]))
    t.done(least=4)
    t = Table(ctx, 'U8/abe_bits')
    for v in (0, 1, 5, 128, 200, 255):
        I_, outs, t.where = t.I, _, _ = run(ctx, N + '::abe_bits', [adt('U8', None, I(v, 'u8'))])
        t.case(str(v), outs, lambda o: I_.content(o.st, o.v) is abe_term([('L', [('B', lit(b'b2')), CO, ('B', lit(format(v, '08b').encode()))])]))
    t.done(least=6)


# ---------------------------------------------------------------------------------------------- C13
class TextHook(ForkHook):
    """printing is an uninterpreted function of the bytes; reading fails, or gives some number of bytes that fit"""

    def on_call(self, I_, fr, st, info, args, site):
        if info.trait is None and info.method == 'as_abtxt' and len(args) == 1:
            self.n += 1
            return [Out('ret', app('call:as_abtxt', I_.content(st, args[0])), st)]
        if info.trait is None and info.method in ('parse_abtxt_into', 'parse_abtxt_upto_max') and len(args) == 2:
            self.n += 1
            into = info.method.endswith('into')
            c = app('call:parse_abtxt', I_.content(st, args[0]))
            room = known_len(I_.content(st, args[1])) if into else args[1].a[0] if args[1].op == 'i' and args[1].a[0] < 64 else None
            if into and room is None:
                return None
            if room is None:
                r = []
                for i in (0, 1):
                    s = st.copy()
                    s.facts[app('discr', c)] = ('=', I(i))
                    r.append(Out('ret', err(app('fld', c, 'Err', 0)) if i else ok(app('upto', c, args[1])), s))
                return r
            s = st.copy()
            s.facts[app('discr', c)] = ('=', I(1))
            r = [Out('ret', err(app('fld', c, 'Err', 0)), s)]
            for n in range(room + 1):
                s = st.copy()
                s.facts[app('discr', c)] = ('=', I(0))
                s.facts[app('count', c)] = ('=', I(n))
                v = read(c, n)
                if into:
                    store(I_, s, args[1], concat(v, eseq(elems(I_.content(st, args[1]))[n:])))
                r.append(Out('ret', ok(I(n) if into else v), s))
            return r
        return ForkHook.on_call(self, I_, fr, st, info, args, site)


def read(c, n):
    return eseq([app('idx', app('fld', c, 'Ok', 0), I(i)) for i in range(n)])


def count(st, c):
    f = st.facts.get(app('count', c))
    return None if f is None else f[1].a[0]


def padded(q, n, fill):
    return concat(bseq(bytes([fill]) * (n - len(elems(q)))), q)


def env_n(n):
    from program import Ty
    return {x: Ty('%d_usize' % n) for x in 'LN'}


def array(n, p='b'):
    q = symseq(p, n)
    for s in q:
        U8.add(s)
    return eseq(q)


def same_bytes(st, a, b):
    """equal on this path, element by element"""
    x, y = elems(a), elems(b)
    return x is not None and y is not None and len(x) == len(y) and all(p is q or st.decide(eq(p, q)) is True for p, q in zip(x, y))


A = 'AB::<[u8; L]>::'
# text, broken text, text cut inside a character, and each of them behind padding
TEXTS = [b'', b'\0', b'\0\0ab', b'ab', b'\xc3\xa9', b'\0a\xc3\xa9', b'a\xc3', b'\0a\xe2\x82', b'\xf0\x9f\x98', b'\xff', b'\0a\xffb', b'\xc3a', b'a\x80', b'\xed\xa0\x80', b'\xc0\x80', b'\0a\0b', b'a\n', b'[a]']


@rule('C13', level='proof', rule='padding, printing and reading of byte fields of several widths with symbolic bytes, over every outcome')
def c13(ctx):
    sizes = (0, 1, 2, 3, 16) if not ctx.thorough else (0, 1, 2, 3, 4, 8, 16, 32)
    total = 0

    def err_is(v):
        return is_adt(v, 'Err')
    # the fitting functions
    for key, path, fill, side in (('fit_back/0', 'fit_back', 0, 'back'), ('fit_back/255', 'fit_back', 255, 'back'), ('fit_front', 'fit_front', 0, 'front'), ('fit', 'fit', 0, None)):
        b = ctx.fn('abe', path, 1)
        t = Table(ctx, key, b.name)
        for n in sizes:
            env = env_n(n)
            env['FILL'] = env_n(fill)['N']
            for k in sorted({0, 1, 2, n - 1, n, n + 1, n + 2} - {-1}):
                q = array(k, 'q')
                I_ = ctx.interp(table=True, unroll_width=2000)
                outs = arms(I_.run_body(b, env, [q], State(), None))
                if k > n or side is None and k != n:
                    t.case('%d into %d' % (k, n), outs, lambda o: err_is(o.v))
                else:
                    want = padded(q, n, fill) if side != 'front' else concat(q, bseq(bytes(n - k)))
                    t.case('%d into %d' % (k, n), outs, lambda o: is_adt(o.v, 'Ok') and same_bytes(o.st, I_.content(o.st, o.v.a[2][0]), want))
        total += t.done(least=20)
    fields = lambda v: v.a[2][0].a[2][0]
    rows = [('try_fit_byte_slice', A + 'try_fit_byte_slice', 0, None), ('try_fit_slice_filled/0', A + 'try_fit_slice_filled', 0, 0), ('try_fit_slice_filled/255', A + 'try_fit_slice_filled', 255, 255),
            ('try_from/slice', '<AB<[u8; L]> as TryFrom<&[u8]>>::try_from', 0, None), ('try_from/list', '<AB<[u8; L]> as TryFrom<abe::eval::ABList>>::try_from', 0, None), ('try_ab', 'try_ab', 0, None),
            ('ab', 'ab', 0, None), ('abx', 'abx', 255, None)]
    for key, path, fill, par in rows:
        t = Table(ctx, key)
        for n in sizes:
            env = env_n(n)
            if par is not None:
                env['FILL'] = env_n(par)['N']
            for k in sorted({0, 1, 2, n - 1, n, n + 1} - {-1}):
                q = array(k, 'q')
                I_, outs, t.where = t.I, _, _ = run(ctx, path, [abl_term([(None, q)]) if 'list' in key else q], env=env)
                if key in ('ab', 'abx'):
                    if k > n:
                        t.k += len(outs)
                        if not outs or any(o.kind == 'ret' for o in outs):
                            t.bad.append('%d bytes into %d do not panic' % (k, n))
                    else:
                        t.case('%d into %d' % (k, n), outs, lambda o: same_bytes(o.st, I_.content(o.st, o.v).a[2][0], padded(q, n, fill)))
                else:
                    t.case('%d into %d' % (k, n), outs, lambda o: err_is(o.v) if k > n else is_adt(o.v, 'Ok') and same_bytes(o.st, I_.content(o.st, o.v).a[2][0].a[2][0], padded(q, n, fill)))
        total += t.done(least=20)
    t = Table(ctx, 'try_from/separators')
    for c in shapes(3):
        if len(c) > 1 or c and c[0][0]:
            I_, outs, t.where = t.I, _, _ = run(ctx, '<AB<[u8; L]> as TryFrom<abe::eval::ABList>>::try_from', [abl_term(c)], env=env_n(4))
            t.case(txt(c), outs, lambda o: err_is(o.v))
    total += t.done(least=10)
    total += reading(ctx, sizes)
    total += printing(ctx, sizes + (17, 32, 33))
    total += plain(ctx, sizes)
    shape(ctx, 'check', '<AB<[u8; L]> as ABEValidator>::check', env_n(4))
    ctx.floor('cases', total, 400)


def reading(ctx, sizes):
    total = 0
    X = sym('X')
    p = app('call:parse_abtxt', X)
    for key, path in (('parse_abtxt', A + 'parse_abtxt'), ('from_str', '<AB<[u8; N]> as FromStr>::from_str')):
        t = Table(ctx, key)
        for n in sizes:
            I_, outs, t.where = t.I, _, _ = run(ctx, path, [X], env=env_n(n), hooks=[TextHook()])
            seen = set()

            def good(o):
                v = I_.content(o.st, o.v)
                if holds(o.st, p) is not True:
                    return holds(o.st, p) is False and is_adt(v, 'Err')
                k = count(o.st, p)
                seen.add(k)
                return is_adt(v, 'Ok') and same_bytes(o.st, v.a[2][0].a[2][0], padded(read(p, k), n, 0))
            t.case('%d bytes' % n, outs, good)
            if seen != set(range(n + 1)):
                t.bad.append('texts of %s bytes are not read into %d' % (sorted(set(range(n + 1)) - seen)[:3], n))
        total += t.done(least=15)
    t = Table(ctx, 'from_str/any length')
    I_, outs, t.where = t.I, _, _ = run(ctx, '<AB<std::vec::Vec<u8>> as FromStr>::from_str', [X], hooks=[TextHook()])

    def good(o):
        v = I_.content(o.st, o.v)
        if holds(o.st, p) is not True:
            return holds(o.st, p) is False and is_adt(v, 'Err')
        w = v.a[2][0].a[2][0]
        return is_adt(v, 'Ok') and w.op == 'upto' and w.a[0] is p and w.a[1].op == 'i' and w.a[1].a[0] >= 65000
    t.case('any text', outs, good)
    total += t.done(least=2)
    return total


def printing(ctx, sizes):
    total = 0
    for key, path in (('display', '<AB<X> as Display>::fmt'), ('debug', '<AB<X> as Debug>::fmt')):
        t = Table(ctx, key)
        for n in sizes:
            st = State()
            w = ref_cell(st, 'out', seq())
            I_, outs, t.where = t.I, _, _ = run(ctx, path, [adt('AB', None, array(n)), w], st, hooks=[TextHook()])
            t.case('%d bytes' % n, outs, lambda o: is_adt(o.v, 'Ok') and same_val(I_.content(o.st, w), app('call:as_abtxt', array(n))), lambda o: show(I_.content(o.st, w))[:200])
        total += t.done(least=5)
    # the expression: a function that pads, its argument and, unless it is 16, the length
    ta, ts = Table(ctx, 'to_abe'), Table(ctx, 'to_abe_str')
    for n in sizes:
        bs = array(n)
        me = adt('AB', None, bs)
        full = set()

        def good(o):
            v = I_.content(o.st, o.v)
            r = expr_of(I_, o.st, v)
            if r is None:
                return False
            mode, pay, ln = r
            full.add((mode, len(elems(pay)) if elems(pay) is not None else None))
            return ln == n and mode in PAD and elems(pay) is not None and len(elems(pay)) <= n and same_bytes(o.st, padded(pay, n, PAD[mode]), bs)
        I_, outs, ta.where = run(ctx, '<AB<N> as ToABE>::to_abe', [me], hooks=[TextHook()])
        ta.case('%d bytes' % n, outs, good)
        I_, outs, ts.where = run(ctx, '<AB<N> as ToABE>::to_abe_str', [me], hooks=[TextHook()])

        def good_text(o):
            r = text_of(I_.content(o.st, o.v))
            if r is None:
                return False
            mode, pay, ln = r
            return ln == n and mode in PAD and len(elems(pay)) <= n and same_bytes(o.st, padded(pay, n, PAD[mode]), bs)
        ts.case('%d bytes' % n, outs, good_text)
    total += ta.done(least=20) + ts.done(least=20)
    return total


PAD = {b'a': 0, b'f': 255, b'lpad': 0}


def expr_of(I_, st, v):
    """(function, argument, length) of [f:arg] or [f:arg:len]"""
    es = elems(v)
    if es is None or len(es) != 1:
        return None
    e = I_.content(st, es[0])
    if not is_adt(e, 'Expr') or not is_adt(e.a[2][0], 'Lst'):
        return None
    xs = elems(I_.content(st, e.a[2][0].a[2][0]))
    if xs is None or len(xs) not in (3, 5):
        return None
    xs = [I_.content(st, x) for x in xs]
    if any(x is not elems(abe_term([CO]))[0] for x in xs[1::2]):
        return None
    b = [x.a[2][0].a[2][0] if is_adt(x, 'Expr') and is_adt(x.a[2][0], 'Bytes') else None for x in xs[::2]]
    if None in b or not is_bytes(b[0]):
        return None
    ln = 16
    if len(b) == 3:
        if not is_bytes(b[2]) or not to_bytes(b[2]).isdigit():
            return None
        ln = int(to_bytes(b[2]))
    return to_bytes(b[0]), b[1], ln


def text_of(v):
    """(function, argument, length) of the text [f:<printed arg>] or [f:<printed arg>:len]"""
    head, pay, tail = b'', None, b''
    for kind, x in parts(v):
        if kind == 'lit':
            if pay is None:
                head += x
            else:
                tail += x
        elif x.op == 'call:as_abtxt' and pay is None:
            pay = x.a[0]
        else:
            return None
    import re
    m, k = re.match(rb'\[(\w+):$', head), re.match(rb'(?::(\d+))?\]$', tail)
    if not m or not k or pay is None or elems(pay) is None:
        return None
    return m.group(1), pay, int(k.group(1)) if k.group(1) else 16


def parts(v):
    """a byte string as literal runs and opaque pieces"""
    if v.op != 'seq':
        return [('lit', to_bytes(v))] if is_bytes(v) else [('term', v)]
    out = []
    for k, *x in v.a:
        out.append(('lit', x[0]) if k == 'b' else ('term', x[0]))
    return out


def plain(ctx, sizes):
    """conversions that keep the bytes"""
    total = 0
    t = Table(ctx, 'bytes kept')
    for n in sizes:
        bs = array(n)
        me = adt('AB', None, bs)
        for path, good in (('<abe::eval::ABList as From<AB<N>>>::from', lambda o: same_abl(abl(I_, o.st, o.v), [(None, bs)]) or not n and abl(I_, o.st, o.v) in ([], [(None, EMPTY)])),
                           ('<AB<N> as AsRef<[u8]>>::as_ref', lambda o: I_.content(o.st, o.v) is bs), ('<AB<N> as Borrow<[u8]>>::borrow', lambda o: I_.content(o.st, o.v) is bs),
                           ('<AB<N> as Deref>::deref', lambda o: I_.content(o.st, o.v) is bs)):
            I_, outs, t.where = t.I, _, _ = run(ctx, path, [me])
            t.case('%s of %d bytes' % (path, n), outs, good)
        I_, outs, t.where = t.I, _, _ = run(ctx, '<AB<N> as From<N>>::from', [bs])
        t.case('from %d bytes' % n, outs, lambda o: I_.content(o.st, o.v) is me)
    x = sym('x')
    b16 = array(16)
    for path, arg, want in (('AB::<[u8; 16]>::to_u128', adt('AB', None, b16), mk_from('be', b16, 'u128')), ('AB::<[u8; 16]>::from_u128', x, adt('AB', None, mk_to('be', x, 'u128'))),
                            ('<u128 as From<AB<[u8; 16]>>>::from', adt('AB', None, b16), mk_from('be', b16, 'u128')), ('<AB<[u8; 16]> as From<u128>>::from', x, adt('AB', None, mk_to('be', x, 'u128')))):
        I_, outs, t.where = t.I, _, _ = run(ctx, path, [arg])
        t.case(path, outs, lambda o: I_.content(o.st, o.v) is want)
    total += t.done(least=20)
    # leading nulls
    t = Table(ctx, 'cut_prefix_nulls')
    for n in sizes:
        bs = array(n)
        me = adt('AB', None, bs)
        for path, args, cut in (('AB::<N>::cut_prefix_nulls', [me], True), ('AB::<N>::as_ref_cut', [me, TRUE], True), ('AB::<N>::as_ref_cut', [me, FALSE], False)):
            I_, outs, t.where = t.I, _, _ = run(ctx, path, args)

            def good(o):
                v = elems(I_.content(o.st, o.v))
                if v is None or len(v) > n or any(a is not b for a, b in zip(reversed(v), reversed(elems(bs)))):
                    return False
                k = n - len(v)
                return not k if not cut else all(o.st.decide(eq(b, I(0, 'u8'))) is True for b in elems(bs)[:k]) and (not v or o.st.decide(eq(v[0], I(0, 'u8'))) is False)
            t.case('%s of %d bytes' % (path, n), outs, good)
            if cut and len(outs) < n + 1:
                t.bad.append('%s of %d bytes: %d outcomes' % (path, n, len(outs)))
    total += t.done(least=20)
    t = Table(ctx, 'as_str')
    for n in sizes:
        bs = array(n)
        for c in (TRUE, FALSE):
            I_, outs, t.where = t.I, _, _ = run(ctx, 'AB::<N>::as_str', [adt('AB', None, bs), c], hooks=[TextHook()])

            def good(o):
                v = I_.content(o.st, o.v)
                v = v.a[2][0] if v.op == 'adt' else v
                if v.op != 'call:as_abtxt':
                    return False
                e = elems(v.a[0])
                return e is not None and same_bytes(o.st, padded(v.a[0], n, 0), bs) and (len(e) == n if c is FALSE else not e or o.st.decide(eq(e[0], I(0, 'u8'))) is False)
            t.case('%d bytes, cut %s' % (n, c), outs, good)
    total += t.done(least=10)
    t = Table(ctx, 'try_utf8')
    for n in sizes:
        bs = array(n)
        I_, outs, t.where = t.I, _, _ = run(ctx, A + 'try_utf8', [adt('AB', None, bs)], env=env_n(n), hooks=[TextHook()])

        def good(o):
            v = I_.content(o.st, o.v)
            v = v.a[2][0] if v.op == 'adt' else v
            printed = v.op == 'call:as_abtxt'
            w = v.a[0] if printed else v
            e = elems(w)
            return e is not None and same_bytes(o.st, padded(w, n, 0), bs) and (not e or o.st.decide(eq(e[0], I(0, 'u8'))) is False) and (w is EMPTY or fact(o.st, app('is_utf8', w)) is (FALSE if printed else TRUE))
        t.case('%d bytes' % n, outs, good)
    for x in TEXTS:
        I_, outs, t.where = t.I, _, _ = run(ctx, A + 'try_utf8', [adt('AB', None, bseq(x))], env=env_n(len(x)), hooks=[TextHook()])
        w = x.lstrip(b'\0')

        def good(o):
            v = I_.content(o.st, o.v)
            v = v.a[2][0] if v.op == 'adt' else v
            try:
                w.decode()
                return as_bytes(v) == w
            except UnicodeDecodeError:
                return v.op == 'call:as_abtxt' and as_bytes(I_.content(o.st, v.a[0])) == w
        t.case(repr(x), outs, good)
    total += t.done(least=5)
    return total


# ---------------------------------------------------------------------------------------------- C11
def peel(v):
    """the contents of a transparent wrapper"""
    while v.op == 'adt' and v.a[:2] in (('B64', None), ('AB', None)):
        v = v.a[2][0]
    return v


def is_text(v, bs):
    """v is the URL-safe unpadded base64 text of bs"""
    ps = parts(v)
    if len(ps) != 1 or ps[0][0] != 'term':
        return False
    t = ps[0][1]
    return t.op == 'b64e' and engine(t.a[0]) == 'URL_SAFE_NO_PAD' and (t.a[1] is bs or same_val(t.a[1], bs))


def b64_verdict(st, x, n):
    """True/False: x is/is not base64 text of n bytes on this path, and the decoded bytes"""
    ln = st.decide(eq(app('len', x), I(-(-4 * n // 3))))
    if is_bytes(x) or elems(x) is not None:
        ln = known_len(x) == -(-4 * n // 3)
    dec = f = None
    for t, v in st.facts.items():
        if t.op == 'discr' and t.a[0].op == 'b64d' and t.a[0].a[1] is x:
            if engine(t.a[0].a[0]) != 'URL_SAFE_NO_PAD' or v[0] != '=':
                return None, None
            dec = v[1].a[0] == 0
            f = app('fld', t.a[0], 'Ok', 0)
            m = st.decide(eq(app('len', f), I(n)))
            ln = m if m is not None else ln
    if ln is False or dec is False:
        return False, None
    return (True, f) if ln and dec else (None, None)


def bytes_of(v, f, n):
    e = elems(v)
    return v is f or e is not None and len(e) == n and all(x is app('idx', f, I(i)) for i, x in enumerate(e)) or n == 0 and known_len(v) == 0


@rule('C11', level='proof', rule='reading, printing and conversion of base64 fields of several widths with symbolic bytes, over every outcome',
      trusted=['base64: decoding and encoding are inverse on valid texts; an unpadded text of length l decodes to floor(3l/4) bytes', 'ruint: from_be_bytes and to_be_bytes are big-endian'])
def c11(ctx):
    sizes = (0, 1, 2, 3, 16, 32) if not ctx.thorough else tuple(range(0, 34)) + (48, 64)
    total = 0
    X = sym('X')

    def read_table(key, path, fallback, arg=lambda x: x):
        t = Table(ctx, key)
        for n in sizes:
            I_, outs, t.where = t.I, _, _ = run(ctx, path, [arg(X)], env=env_n(n))
            seen = set()

            def good(o):
                k, f = b64_verdict(o.st, X, n)
                v = I_.content(o.st, o.v)
                if k is None:
                    return False
                if k:
                    seen.add('text')
                    return is_adt(v, 'Ok') and bytes_of(peel(v.a[2][0]), f, n)
                if fallback and o.st.decide(eq(app('len', X), I(n))) is True:
                    seen.add('raw')
                    return is_adt(v, 'Ok') and bytes_of(peel(v.a[2][0]), X, n)
                seen.add('no')
                return is_adt(v, 'Err') and (not fallback or o.st.decide(eq(app('len', X), I(n))) is False)
            t.case('%d bytes' % n, outs, good)
            for w in ('text', 'no') + (('raw',) if fallback and n else ()):
                if w not in seen:
                    t.bad.append('%d bytes: no outcome for %s' % (n, {'text': 'a base64 text', 'raw': 'raw bytes', 'no': 'anything else'}[w]))
        return t.done(least=3 * len(sizes) - 2)
    total += read_table('parse_str', 'B64::<[u8; N]>::parse_str', False)
    total += read_table('from_str', '<B64<[u8; N]> as FromStr>::from_str', False)
    total += read_table('try_fit_bytes_or_b64', 'B64::<[u8; N]>::try_fit_bytes_or_b64', True)
    total += read_table('try_from/list', '<B64<[u8; L]> as TryFrom<abe::eval::ABList>>::try_from', True, lambda x: abl_term([(None, x)]))
    t = Table(ctx, 'try_from/separators')
    for c in shapes(3):
        if len(c) > 1 or c and c[0][0]:
            I_, outs, t.where = t.I, _, _ = run(ctx, '<B64<[u8; L]> as TryFrom<abe::eval::ABList>>::try_from', [abl_term(c)], env=env_n(4))
            t.case(txt(c), outs, lambda o: is_adt(o.v, 'Err'))
    I_, outs, t.where = t.I, _, _ = run(ctx, '<B64<[u8; L]> as TryFrom<abe::eval::ABList>>::try_from', [abl_term([])], env=env_n(4))
    t.case('nothing', outs, lambda o: is_adt(o.v, 'Err'))
    total += t.done(least=10)
    # raw bytes of exactly that length
    for key, path in (('try_from/slice', '<B64<[u8; L]> as TryFrom<&[u8]>>::try_from'), ('try_fit_slice', 'B64::<[u8; N]>::try_fit_slice')):
        t = Table(ctx, key)
        for n in sizes:
            for k in sorted({0, 1, n - 1, n, n + 1, -(-4 * n // 3)} - {-1}):
                q = array(k, 'q')
                I_, outs, t.where = t.I, _, _ = run(ctx, path, [q], env=env_n(n))
                t.case('%d into %d' % (k, n), outs, lambda o: is_adt(o.v, 'Err') if k != n else is_adt(o.v, 'Ok') and peel(I_.content(o.st, o.v).a[2][0]) is q)
        total += t.done(least=20)
    # any length
    t = Table(ctx, 'parse_str/any length')
    I_, outs, t.where = t.I, _, _ = run(ctx, 'B64::<std::vec::Vec<u8>>::parse_str', [X])

    def good(o):
        v = I_.content(o.st, o.v)
        for d, f in o.st.facts.items():
            if d.op == 'discr' and d.a[0].op == 'b64d' and d.a[0].a[1] is X and engine(d.a[0].a[0]) == 'URL_SAFE_NO_PAD':
                return is_adt(v, 'Ok') and peel(v.a[2][0]) is app('fld', d.a[0], 'Ok', 0) if f[1].a[0] == 0 else is_adt(v, 'Err')
        return False
    t.case('any text', outs, good)
    total += t.done(least=2)
    # printing
    t = Table(ctx, 'printing')
    for n in sizes:
        bs = array(n)
        me = adt('B64', None, bs)
        for path in ('B64::<N>::b64', ) + (('B64::<N>::b64_mini',) if n <= 12 else ()):
            I_, outs, t.where = t.I, _, _ = run(ctx, path, [me])
            t.case('%s of %d bytes' % (path, n), outs, lambda o: is_text(I_.content(o.st, o.v), bs))
        for path in ('B64::<N>::b64_into', '<B64<N> as Display>::fmt', '<B64<N> as Debug>::fmt'):
            st = State()
            w = ref_cell(st, 'out', seq(('s', sym('before'))))
            I_, outs, t.where = t.I, _, _ = run(ctx, path, [me, w], st)

            def good(o):
                p = parts(I_.content(o.st, w))
                return len(p) == 2 and p[0][1] is sym('before') and is_text(p[1][1], bs) and (path.endswith('into') or is_adt(o.v, 'Ok'))
            t.case('%s of %d bytes' % (path, n), outs, good, lambda o: show(I_.content(o.st, w))[:200])
        I_, outs, t.where = t.I, _, _ = run(ctx, '<B64<N> as ToABE>::to_abe', [me])

        def expr(o):
            es = elems(I_.content(o.st, o.v))
            e = I_.content(o.st, es[0]) if es is not None and len(es) == 1 else None
            if e is None or not is_adt(e, 'Expr') or not is_adt(e.a[2][0], 'Lst'):
                return False
            xs = elems(I_.content(o.st, e.a[2][0].a[2][0]))
            if xs is None or len(xs) != 3:
                return False
            xs = [I_.content(o.st, x) for x in xs]
            want = elems(abe_term([('B', lit(b'b')), CO]))
            return xs[0] is want[0] and xs[1] is want[1] and is_adt(xs[2], 'Expr') and is_adt(xs[2].a[2][0], 'Bytes') and is_text(xs[2].a[2][0].a[2][0], bs)
        t.case('to_abe of %d bytes' % n, outs, expr)
        I_, outs, t.where = t.I, _, _ = run(ctx, '<B64<N> as ToABE>::to_abe_str', [me])

        def ex_text(o):
            p = parts(I_.content(o.st, o.v))
            return len(p) == 3 and p[0] == ('lit', b'[b:') and p[2] == ('lit', b']') and p[1][0] == 'term' and is_text(p[1][1], bs)
        t.case('to_abe_str of %d bytes' % n, outs, ex_text)
    total += t.done(least=6 * len(sizes))
    # the same bytes under every view
    t = Table(ctx, 'bytes kept')
    from program import pty
    for n in sizes:
        bs = array(n)
        me = adt('B64', None, bs)
        for path in ('B64::<N>::into_bytes', 'B64::<N>::inner', '<B64<N> as AsRef<[u8]>>::as_ref', '<B64<N> as Borrow<N>>::borrow', '<B64<N> as Deref>::deref', '<B64<N> as From<N>>::from', 'B64::<N>::from_ref'):
            st = State()
            arg = ref_cell(st, 'own', bs) if path.endswith('from_ref') else bs if path.endswith('From<N>>::from') else me
            I_, outs, t.where = t.I, _, _ = run(ctx, path, [arg], st, env={'N': pty('[u8; %d]' % n)})
            t.case('%s of %d bytes' % (path, n), outs, lambda o: peel(I_.content(o.st, o.v)) is bs)
        I_, outs, t.where = t.I, _, _ = run(ctx, '<abe::eval::ABList as From<B64<N>>>::from', [me])
        t.case('list of %d bytes' % n, outs, lambda o: same_abl(abl(I_, o.st, o.v), [(None, bs)]) or not n and abl(I_, o.st, o.v) in ([], [(None, EMPTY)]))
    total += t.done(least=6 * len(sizes))
    numbers(ctx)
    shape(ctx, 'check', '<B64<[u8; L]> as ABEValidator>::check', env_n(4))
    ctx.floor('cases', total, 300)


def numbers(ctx):
    """wide integers and exclusive or"""
    t = Table(ctx, 'wide integers')
    u = sym('u')
    sig = {}
    for (c, n), v in ctx.P.bodies.items():
        if c == 'byte_fmt' and n.endswith('::from') and 'impl at' in n:
            for b in v:
                sig[(b.args[0][1], b.ret)] = b
    for bits, limbs in ((256, 4), (512, 8)):
        n = bits // 8
        bs = array(n)
        w = 'ruint::Uint<%d, %d>' % (bits, limbs)
        tys = ['B64<[u8; %d]>' % n] + (['B64'] if n == 32 else [])
        ins = [sig[(x, w)] for x in tys if (x, w) in sig]
        out = [sig[(w, x)] for x in tys if (w, x) in sig]
        if len(ins) != 1 or len(out) != 1:
            raise Missing('conversions between B64<[u8; %d]> and a %d-bit integer' % (n, bits))
        rows = [(ins[0], adt('B64', None, bs), app('call:Uint:from_be_bytes', bs)), (out[0], u, app('call:Uint:to_be_bytes', u))]
        if n == 32:
            rows += [(ctx.method('byte_fmt', 'B64::<[u8; 32]>::to_u256')[0], adt('B64', None, bs), app('call:Uint:from_be_bytes', bs)), (ctx.method('byte_fmt', 'B64::<[u8; 32]>::from_u256')[0], u, app('call:Uint:to_be_bytes', u))]
        for b, arg, want in rows:
            I_ = ctx.interp(table=True, unroll_width=2000)
            outs = arms(I_.run_body(b, {}, [arg], State(), None))
            t.case(b.name.split('/')[-1], outs, lambda o: peel(I_.content(o.st, o.v)) is want)
            t.where = b.name
    t.done(least=6)
    op = Op(ctx)
    a, b = array(32), array(32, 'c')
    h = lambda i: mk_to('le', app('BitXor', mk_from('le', eseq(elems(a)[i:i + 16]), 'u128'), mk_from('le', eseq(elems(b)[i:i + 16]), 'u128')), 'u128')
    want = eseq([app('idx', h(i), I(j)) for i in (0, 16) for j in range(16)])
    r = random.Random(3)
    lits = [bytes(32), bytes(range(32)), b'\xff' * 32] + [bytes(r.randrange(256) for _ in range(32)) for _ in range(5)]
    for i in range(32):
        lits.append(bytes(i) + bytes([1 << i % 8]) + bytes(31 - i))
    grid = [(bseq(x), bseq(y)) for x in lits for y in lits[:6]]
    op('bitxor', '<B64<[u8; 32]> as BitXor>::bitxor', [a, b], want, lambda x, y: bseq(bytes(p ^ q for p, q in zip(to_bytes(x), to_bytes(y)))), grid,
       wrap=lambda x, y: [adt('B64', None, x), adt('B64', None, y)], get=lambda I_, o: peel(I_.content(o.st, o.v)))
