"""C41 ABList structure, C42 ABConf lookup, C43 TypedABE, C48 expression matchers and replace_abe."""
from check import rule, Missing
from dom import *
from interp import Out, Frame, env_key
from models import to_iter, collect_into
from rules.util import *
from rules.abe_eval import ScopeHook, arms, abe_term, abl_term, SC, CO, FS
from rules.abe_funcs import same_val, show_t, ForkHook, holds
import itertools, os, time

DBG = os.environ.get("DBG")

L = 'eval::ABList::'
CTR = {None: NONE, ':': some(adt('Ctr', 'Colon')), '/': some(adt('Ctr', 'FSlash'))}
TXT = {None: b'', ':': b':', '/': b'/'}


def shapes(n, first=(None, ':', '/')):
    """component lists [(ctr, bytes)] with every separator and empty or non-empty bytes"""
    for k in range(n + 1):
        for cs in itertools.product(*([first] + [(':', '/')] * (k - 1) if k else [])):
            for es in itertools.product((0, 1), repeat=k):
                yield [(c, eseq([sym('q%d' % i), sym('p%d' % i)]) if e else EMPTY) for i, (c, e) in enumerate(zip(cs, es))]


def txt(comps):
    return ''.join((c or '') + ('' if b is EMPTY else show(b)) for c, b in comps) + '(%d)' % len(comps)


def run(ctx, path, args, st=None, hooks=(), env=None, **kw):
    b, e = ctx.method('abe', path)
    if env:
        e = dict(e)
        e.update(env)
    I_ = ctx.interp(hooks=list(hooks), **dict(dict(table=True, unroll_width=2000), **kw))
    fr = Frame(b, e, 0, '', None)
    return I_, fr, arms(I_.run_body(b, e, list(args), st or State(), None)), b.name


def drain(I_, fr, o):
    """[(state, [items])] of the iterator an outcome returns"""
    out = []
    for r in collect_into(I_, fr, o.st, to_iter(I_, o.st, o.v, None), None, None):
        if r.st.dead:
            continue
        out.append((r.st, ('panic', r.v) if r.kind != 'ret' else elems(I_.content(r.st, r.v))))
    return out


class Table:
    """collects the cases of one obligation"""

    def __init__(self, ctx, key, where=None):
        self.ctx, self.key, self.bad, self.k, self.where = ctx, key, [], 0, where
        self.I, self.sure = None, False     # the interpreter of the current case; some failed case involved no unknown function
        self.t0 = time.time()

    def case(self, what, outs, good, got=None):
        if not outs:
            self.bad.append('%s: no outcome' % what)
        for o in outs:
            self.k += 1
            g = False
            if not isinstance(o, Out) or o.kind == 'ret':
                try:
                    g = good(o)
                except (AttributeError, IndexError, TypeError):
                    g = False
            if not g:
                self.bad.append('%s: %s' % (what, got(o) if got and (not isinstance(o, Out) or o.kind == 'ret') else show_o(o)))
                self.sure = self.sure or self.I is not None and self.ctx.sure(self.I)
        self.I = None

    def done(self, where=None, least=1):
        if DBG:
            print(self.key, self.k, round(time.time() - self.t0, 2), flush=True)
        self.ctx.ob(self.key, not self.bad and self.k >= least, '; '.join(self.bad[:3]) or '%d cases' % self.k, where or self.where, self.sure)
        return self.k


def show_o(o):
    if not isinstance(o, Out):
        return show(o[1])[:200] if isinstance(o, tuple) and isinstance(o[1], T) else str(o)[:200]
    return show(o.v)[:200] if o.kind == 'ret' and isinstance(o.v, T) else 'panic %s' % str(o.v)[:150]


def abl(I_, st, v):
    """component list of an ABList value: [(ctr, bytes)] or None"""
    v = I_.content(st, v)
    if v.op != 'adt' or v.a[0] != 'ABList' and v.a[1] != 'ABList':
        return None
    es = elems(v.a[2][0])
    if es is None:
        return None
    out = []
    for e in es:
        e = I_.content(st, e)
        c = [k for k, x in CTR.items() if x is e.a[0]]
        if not c:
            return None
        out.append((c[0], e.a[1]))
    return out


def same_abl(a, b):
    return a is not None and len(a) == len(b) and all(x[0] == y[0] and same_val(x[1], y[1]) for x, y in zip(a, b))


def norm_abl(items):
    """what pushing these items one by one gives: a separator starts a component, bytes extend the last one"""
    r = []
    for c, b in items:
        if c is not None:
            r.append((c, EMPTY))
        if b is not None:
            if r:
                r[-1] = (r[-1][0], concat(r[-1][1], b))
            else:
                r.append((None, b))
    return r


def joined(comps):
    return concat(EMPTY, *[x for c, b in comps for x in (lit(TXT[c]), b)])


def lit(b):
    return bseq(b)


def abl_items(comps):
    r = []
    for c, b in comps:
        if c:
            r.append(('C', c))
        if b is not EMPTY:
            r.append(('B', b))
    return r


def item_term(x):
    return adt('ABItem', 'Ctr', CTR[x[1]].a[2][0]) if x[0] == 'C' else adt('ABItem', 'Bytes', x[1])


def same_item(I_, st, v, x, kind='ABItem'):
    v = I_.content(st, v)
    if kind == 'ABE':
        return v is abe_term([x]).a[0][1] or elems(abe_term([x]))[0] is v
    if x[0] == 'C':
        return is_adt(v, 'Ctr') and v.a[2][0] is CTR[x[1]].a[2][0]
    return is_adt(v, 'Bytes') and same_val(I_.content(st, v.a[2][0]), x[1])


@rule('C41', level='proof', rule='outcome tables of every ABList constructor, modifier and reader over all separator patterns with empty and symbolic components')
def c41(ctx):
    N = 4 if ctx.thorough else 3
    n = 0
    # readers
    t = Table(ctx, 'concat')
    t2 = Table(ctx, 'into/Vec<u8>')
    for c in shapes(N):
        for tt, path in ((t, L + 'concat'), (t2, '<std::vec::Vec<u8> as From<eval::ABList>>::from')):
            I_, fr, outs, w = run(ctx, path, [abl_term(c)])
            tt.case(txt(c), outs, lambda o: same_val(I_.content(o.st, o.v), joined(c)))
            tt.where = w
    n += t.done() + t2.done()
    t = Table(ctx, 'is_empty')
    for c in shapes(N):
        I_, fr, outs, t.where = run(ctx, L + 'is_empty', [abl_term(c)])
        t.case(txt(c), outs, lambda o: o.v is B(not c or c == [(None, EMPTY)]))
    n += t.done()
    for m in ('into_exact_bytes', 'as_exact_bytes'):
        t = Table(ctx, m)
        for c in shapes(N):
            I_, fr, outs, t.where = run(ctx, L + m, [abl_term(c)])

            def good(o):
                if not c or len(c) == 1 and c[0][0] is None:
                    return is_adt(o.v, 'Ok') and same_val(I_.content(o.st, o.v.a[2][0]), c[0][1] if c else EMPTY)
                return is_adt(o.v, 'Err') and same_abl(abl(I_, o.st, o.v.a[2][0]), c)
            t.case(txt(c), outs, good)
        n += t.done()
    for m in ('iter_bytes', 'into_iter_bytes'):
        t = Table(ctx, m)
        for c in shapes(N):
            I_, fr, outs, t.where = run(ctx, L + m, [abl_term(c)])
            want = ([EMPTY] if c and c[0][0] else []) + [b for _, b in c]
            rs = [r for o in outs for r in (drain(I_, fr, o) if o.kind == 'ret' else [(o.st, ('panic', o.v))])]
            t.case(txt(c), rs, lambda r: len(r[1]) == len(want) and all(same_val(I_.content(r[0], x), y) for x, y in zip(r[1], want)))
        n += t.done()
    for key, path, kind in (('items', L + 'items', 'ABItem'), ('item_refs', L + 'item_refs', 'ABItem'), ('into_iter', '<eval::ABList as IntoIterator>::into_iter', 'ABE'),
                            ('into/Vec<ABE>', '<std::vec::Vec<ast::ABE> as From<eval::ABList>>::from', 'ABE')):
        t = Table(ctx, key)
        for c in shapes(N):
            I_, fr, outs, t.where = run(ctx, path, [abl_term(c)])
            want = abl_items(c)
            rs = [r for o in outs for r in (drain(I_, fr, o) if o.kind == 'ret' else [(o.st, ('panic', o.v))])]
            t.case(txt(c), rs, lambda r: len(r[1]) == len(want) and all(same_item(I_, r[0], x, y, kind) for x, y in zip(r[1], want)))
        n += t.done()
    # modifiers
    y = sym('y')
    for m, arg, step in (('push_bytes', y, lambda c: c[:-1] + [(c[-1][0], concat(c[-1][1], y))] if c else [(None, y)]),
                         ('push_ctr', CTR[':'].a[2][0], lambda c: c + [(':', EMPTY)]), ('push_ctr', CTR['/'].a[2][0], lambda c: c + [('/', EMPTY)]),
                         ('push', item_term(('B', y)), lambda c: c[:-1] + [(c[-1][0], concat(c[-1][1], y))] if c else [(None, y)]),
                         ('push', item_term(('C', '/')), lambda c: c + [('/', EMPTY)])):
        t = Table(ctx, '%s %s' % (m, show(arg)[:20]))
        for c in shapes(N - 1):
            I_, fr, outs, t.where = run(ctx, L + m, [abl_term(c), arg])
            t.case(txt(c), outs, lambda o: same_abl(abl(I_, o.st, o.v), step(c)))
        n += t.done()
    t = Table(ctx, 'push_v')
    for c in shapes(N - 1):
        for k in (':', None, '/'):
            st = State()
            me = ref_cell(st, 'me', abl_term(c))
            I_, fr, outs, t.where = run(ctx, L + 'push_v', [me, tup(CTR[k], y)], st)
            t.case(txt(c), outs, lambda o: same_abl(abl(I_, o.st, me), c + [(k, y)]), lambda o: show(I_.content(o.st, me)))
    n += t.done()
    t = Table(ctx, 'pop_front')
    for c in shapes(N):
        st = State()
        me = ref_cell(st, 'me', abl_term(c))
        I_, fr, outs, t.where = run(ctx, L + 'pop_front', [me], st)

        def good(o):
            v = I_.content(o.st, o.v)
            return (same_abl(abl(I_, o.st, adt('ABList', None, eseq([v.a[2][0]]))), c[:1]) if c else is_adt(v, 'None')) and same_abl(abl(I_, o.st, me), c[1:])
        t.case(txt(c), outs, good, lambda o: '%s leaves %s' % (show(o.v), show(I_.content(o.st, me))))
    n += t.done()
    # constructors
    q = [('B', sym('q%d' % i)) for i in range(4)]
    for key, path in (('from/expressions', "<eval::ABList as TryFrom<&[ast::ABE]>>::try_from"), ('from/items', '<eval::ABList as FromIterator<eval::ABItem>>::from_iter')):
        t = Table(ctx, key)
        for k in range(N + 1):
            for ks in itertools.product((CO, FS, 'b', 'e', 'l'), repeat=k):
                if key == 'from/items' and 'l' in ks:
                    continue
                its = [q[i] if x == 'b' else ('B', EMPTY) if x == 'e' else ('L', [q[0]]) if x == 'l' else x for i, x in enumerate(ks)]
                arg = abe_term(its) if key != 'from/items' else eseq([item_term(x) for x in its])
                I_, fr, outs, t.where = run(ctx, path, [arg])
                want = norm_abl([(x[1], None) if x[0] == 'C' else (None, x[1]) for x in its]) if 'l' not in ks else None

                def good(o):
                    if key == 'from/items':
                        return same_abl(abl(I_, o.st, o.v), want)
                    if want is None:
                        i = ks.index('l')
                        return is_adt(o.v, 'Err') and I_.content(o.st, o.v.a[2][0]) is elems(abe_term([its[i]]))[0]
                    return is_adt(o.v, 'Ok') and same_abl(abl(I_, o.st, o.v.a[2][0]), want)
                t.case(show_t(its), outs, good)
        n += t.done()
    t = Table(ctx, 'from/bytes')
    for path in ('<eval::ABList as From<&[u8]>>::from', '<eval::ABList as From<std::vec::Vec<u8>>>::from'):
        for b in (y, EMPTY):
            I_, fr, outs, t.where = run(ctx, path, [b])
            t.case(path, outs, lambda o: same_abl(abl(I_, o.st, o.v), [(None, b)]) or b is EMPTY and abl(I_, o.st, o.v) == [])
    n += t.done()
    t = Table(ctx, 'from/default')
    I_, fr, outs, t.where = run(ctx, '<eval::ABList as Default>::default', [])
    t.case('default', outs, lambda o: abl(I_, o.st, o.v) == [])
    n += t.done()
    for f, c in (('clist', ':'), ('flist', '/')):
        t = Table(ctx, f)
        b = ctx.fn('abe', f, 1)
        from program import pty
        env = dict(I=pty('std::vec::Vec<std::vec::Vec<u8>>'), A=pty('std::vec::Vec<u8>'))
        for k in range(N + 1):
            bs = symseq('q', k)
            I_ = ctx.interp(table=True)
            outs = arms(I_.run_body(b, env, [eseq(bs)], State(), None))
            t.case('%d elements' % k, outs, lambda o: same_abl(abl(I_, o.st, o.v), [(c if i else None, x) for i, x in enumerate(bs)]))
        n += t.done(b.name)
    # round trip
    t = Table(ctx, 'round trip')
    for c in shapes(N):
        if any(b is EMPTY and k is None for k, b in c):
            continue
        I_, fr, outs, t.where = run(ctx, '<std::vec::Vec<ast::ABE> as From<eval::ABList>>::from', [abl_term(c)])
        for o in outs:
            for s, es in drain(I_, fr, o):
                I2, fr2, outs2, _ = run(ctx, "<eval::ABList as TryFrom<&[ast::ABE]>>::try_from", [eseq([I_.content(s, x) for x in es])])
                t.case(txt(c), outs2, lambda o: is_adt(o.v, 'Ok') and same_abl(abl(I2, o.st, o.v.a[2][0]), c))
    n += t.done()
    ctx.floor('cases', n, 1000)


# ---------------------------------------------------------------------------------------------- C42
def logical(c):
    return ([b''] if c and c[0][0] else []) + [b for _, b in c]


def lit_abl(c):
    return abl_term([(k, lit(b)) for k, b in c])


def matches_prefix(c, names):
    l = logical(c)
    return len(l) >= len(names) and l[:len(names)] == names


def checked(c, names):
    """'ok' | 'err' | 'any': are the separators inside the prefix colons? the one right after the prefix may count or not"""
    off = 1 if c and c[0][0] else 0
    inner = [k for k, _ in c[:max(len(names) - off, 0)]]
    if '/' in inner:
        return 'err'
    after = c[max(len(names) - off, 0):len(names)]
    return 'any' if any(k == '/' for k, _ in after) else 'ok'


def conf_entries():
    out = [[]]
    for k in (1, 2, 3):
        for cs in itertools.product(*([(None, ':', '/')] + [(':', '/')] * (k - 1))):
            for bs in itertools.product((b'a', b'b', b''), repeat=k) if k < 3 else [(b'a', b'a', b'a'), (b'a', b'b', b''), (b'b', b'a', b'b'), (b'a', b'', b'a'), (b'a', b'a', b'')]:
                out.append(list(zip(cs, bs)))
    return out


def queries(n):
    for k in range(n + 1):
        for q in itertools.product((b'a', b'b', b''), repeat=k):
            yield list(q)


def confs(ctx):
    es = conf_entries()
    out = [[e] for e in es] + [[]]
    step = 7 if not ctx.thorough else 2
    out += [[a, b] for i, a in enumerate(es) for j, b in enumerate(es) if (i * 5 + j) % (step * 9) == 0]
    out += [[es[i % len(es)], es[(3 * i + 1) % len(es)], es[(7 * i + 2) % len(es)]] for i in range(0, 60 if ctx.thorough else 20)]
    return out


@rule('C42', level='proof', rule='lookup tables of ABConf over entries of every separator shape and prefixes; order, matching and the value rule compared with the documented ones')
def c42(ctx):
    P = 'abconf::ABConf::'
    ti, tc, tg, tv = Table(ctx, 'get_inner'), Table(ctx, 'get_checked'), Table(ctx, 'get'), Table(ctx, 'has_optional_value')
    qs = list(queries(2)) + [[b'a', b'a', b'a'], [b'a', b'b', b''], [b'', b'a', b'b'], [b'a', b'', b'a']]
    for n, conf in enumerate(confs(ctx)):
        me = adt('ABConf', None, eseq([lit_abl(c) for c in conf]))
        for qi, q in enumerate(qs):
            hit = any(matches_prefix(c, q) for c in conf)
            if not ctx.thorough and (n + qi) % ((4 if len(conf) > 1 else 1) if hit else 24):
                continue
            what = '%s in %s' % (b'?'.join(q).decode(), ' | '.join(''.join((k or '') + b.decode() for k, b in c) + '(%d)' % len(c) for c in conf))
            names = eseq([lit(x) for x in q])
            hits = [c for c in reversed(conf) if matches_prefix(c, q)]
            I_, fr, outs, ti.where = run(ctx, P + 'get_inner', [me, names])
            rs = [r for o in outs for r in (drain(I_, fr, o) if o.kind == 'ret' else [(o.st, ('panic', o.v))])]
            ti.case(what, rs, lambda r: r[1] is not None and len(r[1]) == len(hits) and all(I_.content(r[0], x) is lit_abl(c) for x, c in zip(r[1], hits)))
            I_, fr, outs, tc.where = run(ctx, P + 'get_checked', [me, names])
            rs = [r for o in outs for r in (drain(I_, fr, o) if o.kind == 'ret' else [(o.st, ('panic', o.v))])]

            def one(st, x, c):
                x = I_.content(st, x)
                k = checked(c, q)
                return (k != 'err' and is_adt(x, 'Ok') or k != 'ok' and is_adt(x, 'Err')) and I_.content(st, x.a[2][0]) is lit_abl(c)
            tc.case(what, rs, lambda r: r[1] is not None and len(r[1]) == len(hits) and all(one(r[0], x, c) for x, c in zip(r[1], hits)))
            if len(q) == 1:
                I_, fr, outs, tg.where = run(ctx, P + 'get', [me, lit(q[0])])
                tg.case(what, outs, lambda o: one(o.st, o.v.a[2][0], hits[0]) if hits else is_adt(o.v, 'None'))
            if not q:
                continue
            I_, fr, outs, tv.where = run(ctx, P + 'has_optional_value', [me, names])

            def val(o):
                v = I_.content(o.st, o.v)
                if not hits:
                    return is_adt(v, 'None')
                c = hits[0]
                k = checked(c, q)
                rest = c[len(q) - (1 if c[0][0] else 0):]
                w = v.a[2][0]
                is_err = is_adt(w, 'Err') and I_.content(o.st, w.a[2][0]) is lit_abl(c)
                if k == 'err' or len(rest) > 1 or rest and rest[0][0] != ':':
                    return is_err
                good = is_adt(w, 'Ok') and (is_adt(w.a[2][0], 'None') if not rest else is_adt(w.a[2][0], 'Some') and same_val(I_.content(o.st, w.a[2][0].a[2][0]), lit(rest[0][1])))
                return good or k == 'any' and is_err
            tv.case(what, outs, val)
    n = sum(t.done(least=100) for t in (ti, tc, tg, tv))
    # any bytes
    t = Table(ctx, 'any name and value')
    a, b, v, nm = sym('a'), sym('b'), sym('v'), sym('nm')
    me = adt('ABConf', None, eseq([abl_term([(None, a), (':', v)]), abl_term([(None, b), (':', v)])]))
    I_, fr, outs, t.where = run(ctx, P + 'has_optional_value', [me, eseq([nm])])

    def good(o):
        w = I_.content(o.st, o.v)
        hit = is_adt(w, 'Some')
        e = [o.st.decide(eq(nm, x)) for x in (b, a)]
        if hit:
            return is_adt(w.a[2][0], 'Ok') and I_.content(o.st, w.a[2][0].a[2][0].a[2][0]) is v and (e[0] is True or e[1] is True and e[0] is False)
        return e == [False, False]
    t.case('two entries', outs, good)
    n += t.done(least=2)
    # growing
    e1, e2, e3 = [abl_term([(None, sym('e%d' % i))]) for i in range(3)]
    t = Table(ctx, 'push/extend/new')
    for m, arg, want in (('push', e3, [e1, e2, e3]), ('extend', eseq([e3, e1]), [e1, e2, e3, e1]), ('extend', EMPTY, [e1, e2])):
        st = State()
        me = ref_cell(st, 'me', adt('ABConf', None, eseq([e1, e2])))
        I_, fr, outs, t.where = run(ctx, P + m, [me, arg], st)
        t.case(m, outs, lambda o: I_.content(o.st, me) is adt('ABConf', None, eseq(want)))
    I_, fr, outs, t.where = run(ctx, P + 'new', [eseq([e1, e2])])
    t.case('new', outs, lambda o: I_.content(o.st, o.v) is adt('ABConf', None, eseq([e1, e2])))
    n += t.done(least=4)
    conf_text(ctx)
    ctx.floor('cases', n, 1000)


class LineHook(ForkHook):
    def value(self, m, c):
        return abe_term([('B', app('fld', c, 'Ok', 0))]) if m.startswith('parse') else ForkHook.value(self, m, c)


def conf_text(ctx):
    t = Table(ctx, 'text')
    for text, lines in ((b'a:b\nc', [b'a:b', b'c']), (b'x', [b'x']), (b'', [b'']), (b':%abctxt\na\nb/c\n', [b'a', b'b/c', b'']), (b':%abctxt\n', [b'']), (b'a\n\nb', [b'a', b'', b'b']),
                        (b':%abc\na', None), (b':%abctxt', None), (b':%', None), (b':%abctxt2\n', None), (b':a', [b':a']), (b'%abctxt\nz', [b'%abctxt', b'z']), (b'a\r\nb', [b'a\r', b'b']),
                        (b'\n', [b'', b'']), (b'1\n2\n3\n4', [b'1', b'2', b'3', b'4'])):
        I_, fr, outs, t.where = run(ctx, 'abconf::ABConf::try_from', [lit(text)], hooks=[LineHook()])

        def good(o):
            v = I_.content(o.st, o.v)
            if lines is None:
                return is_adt(v, 'Err')
            cs = [app('call:parse_abe_strict_b', lit(l)) for l in lines]
            hs = [holds(o.st, c) for c in cs]
            if False in hs:
                return is_adt(v, 'Err') and None not in hs[:hs.index(False)]
            if None in hs:
                return False
            return is_adt(v, 'Ok') and v.a[2][0] is adt('ABConf', None, eseq([abl_term([(None, app('fld', c, 'Ok', 0))]) for c in reversed(cs)]))
        t.case(repr(text), outs, good)
    t.done(least=20)
    # a line with a nested expression is an error
    class Nested(ForkHook):
        def value(self, m, c):
            return abe_term([('B', sym('x')), CO, ('L', [('B', sym('y'))])]) if m.startswith('parse') else ForkHook.value(self, m, c)
    t = Table(ctx, 'text/nested expression')
    for path, arg in (('abconf::ABConf::try_from', lit(b'l')), ('parse_ablist_b', sym('b'))):
        if path == 'parse_ablist_b':
            b = ctx.fn('abe', path, 1)
            I_ = ctx.interp(hooks=[Nested()], table=True)
            outs, t.where = arms(I_.run_body(b, {}, [arg], State(), None)), b.name
        else:
            I_, fr, outs, t.where = run(ctx, path, [arg], hooks=[Nested()])
        t.case(path, outs, lambda o: is_adt(o.v, 'Err'))
    t.done(least=2)


# ---------------------------------------------------------------------------------------------- C43
class To(ForkHook):
    """evaluation gives this list"""

    def __init__(self, comps):
        ForkHook.__init__(self)
        self.comps = comps

    def value(self, m, c):
        return abl_term(self.comps) if m == 'eval' else ForkHook.value(self, m, c)


def checks(st, of):
    """[(accepted?, what)] of the shape checks made on this path"""
    out = []
    for k, f in st.facts.items():
        if k.op == 'discr' and k.a[0].op.startswith('call:') and k.a[0].op.endswith(':ABEValidator:check') and f[0] == '=':
            out.append((f[1].a[0] == 0, k.a[0].a[0]))
    return [a for a, w in out if w is of]


def typed(I_, st, v):
    v = I_.content(st, v)
    return v.a[2][0] if v.op == 'adt' and 'TypedABE' in v.a[:2] else None


@rule('C43', level='proof', rule='outcome tables of every TypedABE constructor with an uninterpreted shape check and of its evaluation with uninterpreted inner calls: no value without the check, the default only for an empty list, no failure lost')
def c43(ctx):
    n = 0
    me, v, raw = adt('TypedABE', None, sym('v'), adt('PhantomData', None)), sym('v'), sym('raw')
    for key, path, arg in (('from', 'convert::TypedABE::<A>::from', v), ('try_as', 'convert::TypedABE::<A>::try_as', me), ('try_from/expressions', '<convert::TypedABE<O> as TryFrom<&[ast::ABE]>>::try_from', v),
                           ('try_from/bytes', '<convert::TypedABE<O> as TryFrom<&[u8]>>::try_from', raw), ('from_str', '<convert::TypedABE<O> as FromStr>::from_str', raw),
                           ('deserialize', '<convert::TypedABE<V> as convert::_::_serde::Deserialize>::deserialize', raw)):
        t = Table(ctx, 'constructor/' + key)
        I_, fr, outs, t.where = run(ctx, path, [arg], hooks=[ForkHook()])
        src = v
        if key in ('try_from/bytes', 'from_str'):
            src = app('fld', app('call:parse_abe_strict_b', raw), 'Ok', 0)
        seen = set()

        def good(o):
            w = I_.content(o.st, o.v)
            x = src
            if key == 'deserialize':
                ds = [k.a[0] for k, f in o.st.facts.items() if k.op == 'discr' and k.a[0].op.endswith('Deserialize:deserialize')]
                if len(ds) != 1:
                    return False
                h, x = holds(o.st, ds[0]), app('fld', ds[0], 'Ok', 0)
            else:
                h = holds(o.st, x.a[0]) if x is not v else True
            c = checks(o.st, x)
            seen.add((h, c[0] if c else None))
            if h is not True or c == [False]:
                return is_adt(w, 'Err') and (h is not None)
            return c == [True] and is_adt(w, 'Ok') and typed(I_, o.st, w.a[2][0]) is x
        t.case(key, outs, good)
        n += t.done(least=2)
        ctx.ob('constructor/%s/both ways' % key, {(True, True), (True, False)} <= seen, 'accepts a list whose shape passes and rejects one whose shape fails: %s' % sorted(map(str, seen)), t.where)
    # evaluation
    for m in ('eval', 'eval_default'):
        t = Table(ctx, m)
        for c in shapes(3 if ctx.thorough else 2):
            args = [me] + ([sym('dflt')] if m == 'eval_default' else []) + [SC]
            I_, fr, outs, t.where = run(ctx, 'convert::TypedABE::<A>::' + m, args, hooks=[To(c)])
            ev = app('call:eval', SC, v)

            def good(o):
                w = I_.content(o.st, o.v)
                if holds(o.st, ev) is not True:
                    return holds(o.st, ev) is False and is_adt(w, 'Err') and is_adt(w.a[2][0], 'Eval')
                if m == 'eval_default' and (not c or c == [(None, EMPTY)]):
                    return is_adt(w, 'Ok') and w.a[2][0] is sym('dflt')
                cs = [k.a[0] for k, f in o.st.facts.items() if k.op == 'discr' and k.a[0].op == 'call:try_from:A']
                if len(cs) != 1 or not same_abl(abl(I_, o.st, cs[0].a[0]), c):
                    return False
                if holds(o.st, cs[0]):
                    return is_adt(w, 'Ok') and w.a[2][0] is app('fld', cs[0], 'Ok', 0)
                return is_adt(w, 'Err') and is_adt(w.a[2][0], 'TryFrom')
            t.case(txt(c), outs, good)
        n += t.done(least=10)
    t = Table(ctx, 'eval_default/any bytes')
    I_, fr, outs, t.where = run(ctx, 'convert::TypedABE::<A>::eval_default', [me, sym('dflt'), SC], hooks=[ForkHook()])
    b = app('fld', app('call:eval', SC, v), 'Ok', 0)

    def good(o):
        w = I_.content(o.st, o.v)
        d = is_adt(w, 'Ok') and w.a[2][0] is sym('dflt')
        return d == (holds(o.st, b.a[0]) is True and o.st.decide(eq(length(b), I(0))) is True)
    t.case('one component', outs, good)
    n += t.done(least=4)
    t = Table(ctx, 'eval_vec')
    for k in range(4):
        vs = symseq('v', k)
        b = ctx.fn('abe', 'eval_vec', 2)
        I_ = ctx.interp(hooks=[ForkHook()], table=True)
        outs = arms(I_.run_body(b, {}, [eseq([adt('TypedABE', None, x, adt('PhantomData', None)) for x in vs]), SC], State(), None))

        def good(o):
            w = I_.content(o.st, o.v)
            got = []
            for x in vs:
                ev = app('call:eval', SC, x)
                if holds(o.st, ev) is not True:
                    return holds(o.st, ev) is False and is_adt(w, 'Err')
                c = app('call:try_from:A', I_.content(o.st, abl_term([(None, app('fld', ev, 'Ok', 0))])))
                if holds(o.st, c) is not True:
                    return holds(o.st, c) is False and is_adt(w, 'Err')
                got.append(app('fld', c, 'Ok', 0))
            return is_adt(w, 'Ok') and elems(w.a[2][0]) is not None and len(elems(w.a[2][0])) == len(got) and all(p is q for p, q in zip(elems(w.a[2][0]), got))
        t.case('%d expressions' % k, outs, good)
        t.where = b.name
    n += t.done(least=10)
    # the built-in kinds
    for ty, want in (('std::string::String', lambda k: k == 1), ('std::vec::Vec<u8>', lambda k: True), ('eval::ABList', lambda k: True)):
        t = Table(ctx, 'check/' + ty)
        for k in range(5):
            for its in itertools.product((CO, FS, ('B', sym('q')), ('L', [CO])), repeat=k) if k < 3 else [(CO,) * k, (('B', sym('q')),) * k]:
                I_, fr, outs, t.where = run(ctx, '<%s as convert::ABEValidator>::check' % ty, [abe_term(its)])
                t.case(show_t(its), outs, lambda o: is_adt(o.v, 'Ok') if want(k) else is_adt(o.v, 'Err'))
        n += t.done(least=10)
    t = Table(ctx, 'into/String')
    for c in shapes(2) if not ctx.thorough else shapes(3):
        I_, fr, outs, t.where = run(ctx, '<std::string::String as TryFrom<eval::ABList>>::try_from', [abl_term(c)])

        def good(o):
            w = I_.content(o.st, o.v)
            if c and (len(c) > 1 or c[0][0]):
                return is_adt(w, 'Err') and is_adt(w.a[2][0], 'MatchError')
            b = c[0][1] if c else EMPTY
            if is_adt(w, 'Ok'):
                return same_val(I_.content(o.st, w.a[2][0]), b) and (b is EMPTY or fact(o.st, app('is_utf8', b)) is TRUE)
            return is_adt(w, 'Err') and fact(o.st, app('is_utf8', b)) is FALSE
        t.case(txt(c), outs, good)
    n += t.done(least=5)
    t = Table(ctx, 'unwrap')
    for path, w in (('convert::TypedABE::<A>::unwrap', lambda x: x is v), ('<std::vec::Vec<ast::ABE> as From<convert::TypedABE<O>>>::from', lambda x: x is v),
                    ('<ast::Expr as From<convert::TypedABE<O>>>::from', lambda x: is_adt(x, 'Lst') and x.a[2][0] is v), ('<convert::TypedABE<A> as Deref>::deref', lambda x: x is v)):
        I_, fr, outs, t.where = run(ctx, path, [me])
        t.case(path, outs, lambda o: w(I_.content(o.st, o.v)))
    for path in ('<convert::TypedABE<std::vec::Vec<u8>> as From<std::vec::Vec<ast::ABE>>>::from', 'convert::TypedABE::<A>::from_unchecked'):
        I_, fr, outs, t.where = run(ctx, path, [v])
        t.case(path, outs, lambda o: typed(I_, o.st, o.v) is v)
    n += t.done(least=4)
    ctx.floor('cases', n, 150)


# ---------------------------------------------------------------------------------------------- C48
def kinds_lists(n, nb=2):
    for k in range(n + 1):
        for ks in itertools.product('CFBL', repeat=k):
            yield [CO if x == 'C' else FS if x == 'F' else ('B', sym('q%d' % i)) if x == 'B' else ('L', [('B', sym('g%d' % i)), CO]) for i, x in enumerate(ks)]


def run_fn(ctx, name, args, env=None, st=None, **kw):
    b = ctx.fn('abe', name, len(args))
    I_ = ctx.interp(**dict(dict(table=True, unroll_width=2000), **kw))
    return I_, arms(I_.run_body(b, env or {}, list(args), st or State(), None)), b.name


def replaced(t, pat, new):
    t = [('L', replaced(x[1], pat, new)) if x[0] == 'L' else x for x in t]
    if not pat:
        return t
    out, i = [], 0
    while i < len(t):
        if t[i:i + len(pat)] == pat:
            out += new
            i += len(pat)
        else:
            out.append(t[i])
            i += 1
    return out


@rule('C48', level='proof', rule='outcome tables of every expression matcher over all kinds and lengths, and of replace_abe over all short nested lists and patterns')
def c48(ctx):
    from program import Ty
    n = 0
    N = 3 if not ctx.thorough else 4
    lists_ = list(kinds_lists(N))
    E = lambda t: elems(abe_term(t))

    def is_list(I_, st, v, t):
        e = elems(I_.content(st, v))
        w = E(t)
        return e is not None and len(e) == len(w) and all(a is b for a, b in zip(e, w))

    def table(key, name, arg, want, env=None, lsts=None, least=10):
        """want(list) -> None (an error) or a predicate on (interp, state, Ok value)"""
        nonlocal n
        t = Table(ctx, key)
        for its in lists_ if lsts is None else lsts:
            if '::' in name:
                I_, fr, outs, t.where = run(ctx, name, arg(its), env=env)
            else:
                I_, outs, t.where = run_fn(ctx, name, arg(its), env)
            w = want(its)

            def good(o):
                if w is None:
                    return is_adt(o.v, 'Err')
                return is_adt(o.v, 'Ok') and w(I_, o.st, o.v.a[2][0])
            t.case(show_t(its) + '(%d)' % len(its), outs, good)
        n += t.done(least=least)
    whole = lambda its: [abe_term(its)]
    one = lambda its: [E(its)[0]]
    singles = [x for x in lists_ if len(x) == 1]
    for k in range(0, N + 1):
        env = {'N': Ty('%d_usize' % k)}
        table('take/%d' % k, 'take', whole, lambda its: None if len(its) < k else lambda I_, st, v: is_list(I_, st, v.a[0], its[:k]) and is_list(I_, st, v.a[1], its[k:]), env)
        table('exact/%d' % k, 'exact', whole, lambda its: None if len(its) != k else lambda I_, st, v: is_list(I_, st, v, its), env)
    table('take_first', 'take_first', whole, lambda its: None if not its else lambda I_, st, v: I_.content(st, v.a[0]) is E(its)[0] and is_list(I_, st, v.a[1], its[1:]))
    table('is_empty', 'is_empty', whole, lambda its: None if its else lambda I_, st, v: is_list(I_, st, v, []))
    table('single', 'single', whole, lambda its: None if len(its) != 1 else lambda I_, st, v: I_.content(st, v) is E(its)[0])
    table('one_or', 'one_or', whole, lambda its: None if len(its) > 1 else lambda I_, st, v: is_adt(v, 'None') if not its else is_adt(v, 'Some') and I_.content(st, v.a[2][0]) is E(its)[0])
    table('no_ctrs', 'no_ctrs', whole, lambda its: None if any(x[0] == 'C' for x in its) else lambda I_, st, v: is_list(I_, st, v, its))
    kind = lambda x: x[1] if x[0] == 'C' else x[0]
    as_b = lambda its: None if kind(its[0]) != 'B' else lambda I_, st, v: same_val(I_.content(st, v), its[0][1])
    as_l = lambda its: None if kind(its[0]) != 'L' else lambda I_, st, v: is_list(I_, st, v, its[0][1])
    as_e = lambda its: None if its[0][0] == 'C' else lambda I_, st, v: I_.content(st, v) is E(its)[0].a[2][0]
    table('as_lst', 'as_lst', one, as_l, lsts=singles, least=4)
    table('as_bytes', 'as_bytes', one, as_b, lsts=singles, least=4)
    table('as_expr', 'as_expr', one, as_e, lsts=singles, least=4)
    table('expr', 'ast::ABE::expr', one, as_e, lsts=singles, least=4)
    exprs = [x for x in singles if x[0][0] != 'C']
    inner = lambda its: [E(its)[0].a[2][0]]
    table('Expr/as_bytes', 'ast::Expr::as_bytes', inner, as_b, lsts=exprs, least=2)
    table('Expr/as_list', 'ast::Expr::as_list', inner, as_l, lsts=exprs, least=2)
    for f, c in (('is_colon', ':'), ('is_fslash', '/')):
        table(f, f, one, lambda its: None if kind(its[0]) != c else lambda I_, st, v: True, lsts=singles, least=4)
        t = Table(ctx, 'ABE/' + f)
        for its in singles:
            I_, fr, outs, t.where = run(ctx, 'ast::ABE::' + f, one(its))
            t.case(show_t(its), outs, lambda o: o.v is B(kind(its[0]) == c))
        n += t.done(least=4)
        fp = T('fn', ('ast::' + f, env_key({})))
        and_f = lambda its: [abe_term(its), fp]
        table('strip_prefix/' + f, 'strip_prefix', and_f, lambda its: None if not its or kind(its[0]) != c else lambda I_, st, v: is_list(I_, st, v, its[1:]))
        pair = lambda its, i, j: None if len(its) < 2 or kind(its[i]) != c or its[j][0] == 'C' else lambda I_, st, v: I_.content(st, v.a[0]) is E(its)[j].a[2][0] and is_list(I_, st, v.a[1], its[2:])
        table('take_ctr_expr/' + f, 'take_ctr_expr', and_f, lambda its: pair(its, 0, 1))
        table('take_expr_ctr2/' + f, 'take_expr_ctr2', and_f, lambda its: pair(its, 1, 0))
        t = Table(ctx, 'multi_ctr_expr/' + f)
        for its in lists_ + [
                [(CO, FS)[c == '/'], ('B', sym('q0')), (CO, FS)[c == '/'], ('L', [CO])] + x for x in ([], [CO], [('B', sym('r'))], [CO, ('B', sym('r'))], [FS, ('B', sym('r'))], [CO, FS], [FS, CO])]:
            I_, outs, t.where = run_fn(ctx, 'multi_ctr_expr', and_f(its))
            i, got = 0, []
            while len(its) - i >= 2 and kind(its[i]) == c and its[i + 1][0] != 'C':
                got.append(E(its)[i + 1].a[2][0])
                i += 2

            def good(o):
                v = I_.content(o.st, o.v)
                e = elems(v.a[0])
                return e is not None and len(e) == len(got) and all(x is y for x, y in zip(e, got)) and is_list(I_, o.st, v.a[1], its[i:])
            t.case(show_t(its), outs, good)
        n += t.done(least=20)
    # conversions
    t = Table(ctx, 'conversions')
    y = sym('y')
    for path, arg, w in (('<ast::Expr as From<&str>>::from', y, lambda v: is_adt(v, 'Bytes') and v.a[2][0] is y), ('<ast::Expr as From<std::string::String>>::from', y, lambda v: is_adt(v, 'Bytes') and v.a[2][0] is y),
                         ('<ast::Expr as From<std::vec::Vec<u8>>>::from', y, lambda v: is_adt(v, 'Bytes') and v.a[2][0] is y), ('<ast::Expr as From<&[u8]>>::from', y, lambda v: is_adt(v, 'Bytes') and v.a[2][0] is y),
                         ('<ast::Expr as From<std::vec::Vec<ast::ABE>>>::from', y, lambda v: is_adt(v, 'Lst') and v.a[2][0] is y), ('<ast::ABE as From<ast::Expr>>::from', y, lambda v: is_adt(v, 'Expr') and v.a[2][0] is y),
                         ('<ast::ABE as From<ast::Ctr>>::from', y, lambda v: is_adt(v, 'Ctr') and v.a[2][0] is y),
                         ('<ast::ABE as FromIterator<ast::ABE>>::from_iter', eseq(symseq('q', 3)), lambda v: is_adt(v, 'Expr') and is_adt(v.a[2][0], 'Lst') and v.a[2][0].a[2][0] is eseq(symseq('q', 3)))):
        I_, fr, outs, t.where = run(ctx, path, [arg])
        t.case(path, outs, lambda o: w(I_.content(o.st, o.v)))
    n += t.done(least=8)
    # replace_abe
    t = Table(ctx, 'replace_abe')
    a, b = ('B', lit(b'a')), ('B', lit(b'b'))
    flat = [list(x) for k in range(4 if not ctx.thorough else 5) for x in itertools.product((a, b, CO), repeat=k)]
    nest = [[('L', [a])], [a, ('L', [a, b])], [('L', [a, a, a]), a], [('L', [('L', [a, b]), a]), b], [CO, ('L', [CO, a]), a], [('L', [a]), ('L', [a])], [('L', []), a], [a, ('L', [b]), ('L', [b, a]), b]]
    pats = [[], [a], [CO], [a, b], [a, a], [a, CO], [('L', [a])], [a, a, a], [('L', [b])]]
    news = [[], [b], [a], [a, a], [b, a], [('L', [a])], [CO, b]]
    for i, its in enumerate(flat + nest):
        for j, p in enumerate(pats):
            for k, nw in enumerate(news):
                if not ctx.thorough and len(its) > 2 and its in flat and (i + j + k) % 4 and replaced(its, p, nw) == its:
                    continue
                if not ctx.thorough and its in flat and len(its) == 3 and (i + 2 * j + k) % 2:
                    continue
                st = State()
                me = ref_cell(st, 'inp', abe_term(its))
                I_, outs, t.where = run_fn(ctx, 'replace_abe', [me, abe_term(p), abe_term(nw)], st=st, unroll_width=20000, recursion=8)
                want = replaced(its, p, nw)
                t.case('%s: %s -> %s' % (show_t(its), show_t(p), show_t(nw)), outs, lambda o: is_list(I_, o.st, me, want), lambda o: show(I_.content(o.st, me))[:200])
    n += t.done(least=300)
    ctx.floor('cases', n, 1000)
