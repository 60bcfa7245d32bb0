"""C25 well-formed spaces, C26 building spaces, C27 taking spaces apart, C28 rooted spaces."""
from check import rule, Missing
from dom import *
from interp import Out, Frame
from rules.util import *
from rules.abe_eval import arms
from rules.abe_funcs import same_val
from rules.abe_struct import Table, drain
import models_pkt
import random

PK = 'linkspace_pkt'
S, B = 'SpaceBytes::<[u8]>::', 'SpaceBytes::<Vec<u8>>::'
MAXC, MAXS, MAXD = 200, 242, 8
SP = lambda v: adt('SpaceBytes', None, v)
TRUST = ['struct layouts read from the sources: transparent newtypes over bytes']


def run(ctx, path, args, st=None, env=None, **kw):
    b, e = ctx.method(PK, path)
    e = dict(e)
    e.update(env or {})
    I_ = ctx.interp(**dict(dict(table=True, unroll_width=3000, part=3000, hooks=[models_pkt.Cuts()]), **kw))
    return I_, arms(I_.run_body(b, e, list(args), st or State(), None)), b


def array(n, p='b'):
    return eseq(u8syms(p, n))


def comp(n, p='k'):
    """a component of n bytes: the first and last few symbolic"""
    return seq(*[('e', x) for x in u8syms(p, min(n, 3))], *([('b', bytes((7 * i + len(p)) & 255 for i in range(n - 3)))] if n > 3 else []))


def comps(lens, p='b'):
    return [comp(n, '%s%d_' % (p, i)) for i, n in enumerate(lens)]


def build(cs):
    out = EMPTY
    for c in cs:
        n = length(c)
        out = concat(out, concat(eseq([I(n.a[0], 'u8')]), c))
    return out


def size(cs):
    return sum(1 + length(c).a[0] for c in cs)


def valid(cs):
    return len(cs) <= MAXD and size(cs) <= MAXS and all(1 <= length(c).a[0] <= MAXC for c in cs)


def inside(v):
    """bytes of a space value"""
    while v.op == 'adt' and v.a[0] in ('SpaceBytes', 'RootedSpaceBytes', 'SpaceIter', 'CheckedSpaceIter') and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


def val(I_, o, v=None):
    return I_.content(o.st, o.v if v is None else v)


def is_space(v, cs):
    return v.op == 'adt' and v.a[0] == 'SpaceBytes' and same_val(inside(v), build(cs))


def is_ok(v, f):
    return is_adt(v, 'Ok') and f(v.a[2][0])


def is_some(v, f):
    return is_adt(v, 'Some') and f(v.a[2][0])


def is_err(v):
    return is_adt(v, 'Err')


def readings(st, bs):
    """every way the bytes can be read as components on this path: [(state, components or None)]"""
    bs = elems(bs)
    out = []

    def go(s, pos, cs):
        if pos == len(bs):
            out.append((s, cs))
            return
        b = s.norm(bs[pos])
        rest = len(bs) - pos - 1
        if b.op == 'i':
            k = b.a[0]
            if 1 <= k <= min(MAXC, rest):
                go(s, pos + 1 + k, cs + [bs[pos + 1:pos + 1 + k]])
            else:
                out.append((s, None))
            return
        for k in range(1, min(MAXC, rest) + 1):
            t = s.copy()
            if t.assume(b, I(k, 'u8')) and not t.dead:
                go(t, pos + 1 + k, cs + [bs[pos + 1:pos + 1 + k]])
        for lo, hi in ((0, 1), (min(MAXC, rest) + 1, 256)):
            t = s.copy()
            if t.assume(lt(b, I(lo, 'u8')), FALSE) and (hi > 255 or t.assume(lt(b, I(hi, 'u8')), TRUE)) and not t.dead:
                out.append((t, None))
    go(st, 0, [])
    return out


def check_case(t, what, I_, outs, bs, good):
    """every outcome, on every reading of the bytes it stands for; returns the readings seen"""
    seen = set()
    for o in outs:
        for s, cs in readings(o.st, bs):
            seen.add(None if cs is None else tuple(map(len, cs)))
            t.case('%s %s' % (what, 'malformed' if cs is None else 'components of %s bytes' % list(map(len, cs))), [o],
                   lambda o: good(o, None if cs is None else [eseq(c) for c in cs]))
    return seen


def compositions(n):
    r = [()] if not n else [(k - 1,) + x for k in range(2, n + 1) for x in compositions(n - k)]
    return r


@rule('C25', level='proof', build='pkt', trusted=TRUST,
      rule='acceptance of every byte string of up to 8 (thorough: 11) symbolic bytes and of boundary shapes, over every outcome')
def c25(ctx):
    N = 12 if ctx.thorough else 9
    total = 0
    ROWS = [('from_slice', S + 'from_slice', lambda b: b, lambda v, b, k: is_ok(v, lambda x: same_val(inside(x), b))),
            ('check_components', S + 'check_components', lambda b: SP(b), lambda v, b, k: is_ok(v, lambda x: x.op == 'i' and x.a[0] == k)),
            ('try_from_inner', B + 'try_from_inner', lambda b: b, lambda v, b, k: is_ok(v, lambda x: x.op == 'adt' and x.a[0] == 'SpaceBytes' and same_val(inside(x), b)))]
    shapes = [(200,), (200, 40), (1,) * 8, (29,) * 8, (29,) * 7 + (31,), (120, 120), (60, 60, 60, 58)]
    wrong = [(201,), (255,), (200, 41), (1,) * 9, (0,), (2, 0), (1, 201), (1,) * 8 + (0,), (120, 121), (1,) * 121, (30,) * 8]
    for key, path, wrap, good in ROWS:
        t = Table(ctx, key)
        for n in range(N):
            bs = array(n)
            I_, outs, b = run(ctx, path, [wrap(bs)])
            t.where = b.name
            seen = check_case(t, '%d bytes' % n, I_, outs, bs,
                              lambda o, cs: is_err(val(I_, o)) if cs is None or len(cs) > MAXD else good(val(I_, o), bs, len(cs)))
            want = set(compositions(n)) | ({None} if n else set())
            if not want <= seen:
                t.bad.append('%d bytes: no outcome for %s' % (n, sorted(map(str, want - seen))[:3]))
        for sh in shapes + wrong:
            cs = comps(sh)
            bs = build(cs)
            I_, outs, b = run(ctx, path, [wrap(bs)])
            t.case('components of %s bytes' % list(sh), outs, (lambda o: good(val(I_, o), bs, len(cs))) if valid(cs) else (lambda o: is_err(val(I_, o))))
        for cut, sh in ((1, (200,)), (1, (1, 2, 3)), (3, (1, 2, 3)), (40, (3, 60)), (200, (200,))):
            bs = build(comps(sh))
            bs = mk_slice(bs, I(0), I(length(bs).a[0] - cut))
            I_, outs, b = run(ctx, path, [wrap(bs)])
            t.case('components of %s bytes cut by %d' % (sh, cut), outs, lambda o: is_err(val(I_, o)))
        total += t.done(least=90)
    # the checked iterator
    t = Table(ctx, 'checked_iter')
    for n in range(N - 2):
        bs = array(n)
        I_, outs, b = run(ctx, S + 'checked_iter', [SP(bs)])
        t.where = b.name
        for o in outs:
            if not is_adt(val(I_, o), 'Ok'):
                t.bad.append('%d bytes: %s' % (n, show(val(I_, o))))
                continue
            for s, items in walk(ctx, I_, b, o.st, val(I_, o).a[2][0]):
                for s2, cs in read_prefix(s, bs):
                    t.case('%d bytes' % n, [Out('ret', UNIT, s2)], lambda o: items is not None and items == cs or same_items(s2, items, cs))
    for cs in [comps(x) for x in ((243,), (121, 121), (1,) * 122)]:
        I_, outs, b = run(ctx, S + 'checked_iter', [SP(build(cs))])
        t.case('%d bytes' % size(cs), outs, lambda o: is_err(val(I_, o)))
    total += t.done(least=60)
    ctx.floor('cases', total, 500)


def walk(ctx, I_, b, st, it, limit=40):
    """items of a checked iterator, by its next(): [(state, [component | 'err'])]; a panic gives None"""
    nb, env = ctx.method(PK, '<&CheckedSpaceIter as Iterator>::next')
    out = []
    todo = [(st, it, [])]
    while todo:
        s, i, items = todo.pop()
        if len(items) > limit:
            out.append((s, None))
            continue
        s = s.copy()
        c = ref_cell(s, 'it', i)
        for o in arms(I_.run_body(nb, env, [c], s, None)):
            if o.kind != 'ret':
                out.append((o.st, None))
                continue
            ni = I_.content(o.st, c)
            v = I_.content(o.st, o.v)
            if is_adt(v, 'None'):
                out.append((o.st, items))
            elif is_adt(v, 'Some') and is_adt(v.a[2][0], 'Ok'):
                todo.append((o.st, ni, items + [v.a[2][0].a[2][0]]))
            elif is_adt(v, 'Some') and is_adt(v.a[2][0], 'Err'):
                todo.append((o.st, ni, items + ['err']))
            else:
                out.append((o.st, None))
    return out


def read_prefix(st, bs):
    """the components the bytes start with, then 'err' when a malformed one follows: [(state, items)]"""
    bs = elems(bs)
    out = []

    def go(s, pos, cs):
        if pos == len(bs):
            out.append((s, cs))
            return
        b = s.norm(bs[pos])
        rest = len(bs) - pos - 1
        good = range(1, min(MAXC, rest) + 1)
        if b.op == 'i':
            if b.a[0] in good:
                go(s, pos + 1 + b.a[0], cs + [eseq(bs[pos + 1:pos + 1 + b.a[0]])])
            else:
                out.append((s, cs + ['err']))
            return
        for k in good:
            t = s.copy()
            if t.assume(b, I(k, 'u8')) and not t.dead:
                go(t, pos + 1 + k, cs + [eseq(bs[pos + 1:pos + 1 + k])])
        for lo, hi in ((0, 1), (min(MAXC, rest) + 1, 256)):
            t = s.copy()
            if t.assume(lt(b, I(lo, 'u8')), FALSE) and (hi > 255 or t.assume(lt(b, I(hi, 'u8')), TRUE)) and not t.dead:
                out.append((t, cs + ['err']))
    go(st, 0, [])
    return out


def same_items(st, a, b):
    return a is not None and len(a) == len(b) and all((x == y) if isinstance(x, str) or isinstance(y, str) else same_val(x, y) for x, y in zip(a, b))


BASES = [(), (1,), (1, 2), (3, 1, 2), (1,) * 7, (1,) * 8, (29,) * 8, (200,), (200, 39), (200, 40), (120, 119), (120, 118), (100, 99), (29,) * 7]
SIZES = [0, 1, 2, 28, 29, 40, 41, 199, 200, 201, 255, 256, 300]


def build_case(t, what, I_, outs, cs, fallible, least=1):
    if valid(cs):
        t.case(what, outs, lambda o: (is_ok(val(I_, o), lambda x: is_space(x, cs)) if fallible else is_space(val(I_, o), cs)))
    elif fallible:
        t.case(what, outs, lambda o: is_err(val(I_, o)))
    else:
        stops(t, what, outs)


def stops(t, what, outs):
    """every outcome is a panic"""
    t.k += 1
    if not outs or any(o.kind == 'ret' for o in outs):
        t.bad.append('%s: returns' % what)


@rule('C26', level='proof', build='pkt', trusted=TRUST,
      rule='the space built from symbolic components of listed sizes, compared with the concatenation of the length-prefixed components')
def c26(ctx):
    total = 0
    sizes = SIZES if not ctx.thorough else sorted(set(SIZES) | set(range(0, 60)) | set(range(110, 125)) | set(range(196, 260)))
    for key, fallible, front in (('try_push', True, False), ('push', False, False), ('try_push_front', True, True), ('push_front', False, True)):
        t = Table(ctx, key)
        for sh in BASES:
            for n in sizes:
                cs, c = comps(sh), comp(n)
                I_, outs, b = run(ctx, B + key, [SP(build(cs)), c])
                t.where = b.name
                build_case(t, '%d bytes onto %s' % (n, list(sh)), I_, outs, [c] + cs if front else cs + [c], fallible)
        total += t.done(least=len(BASES) * len(sizes))
    for key, fallible, front in (('try_append', True, False), ('try_prepend', True, True), ('try_join', True, False), ('join', False, False)):
        t = Table(ctx, key)
        for sh in BASES:
            for sh2 in BASES:
                cs, c2 = comps(sh), comps(sh2, 'c')
                I_, outs, b = run(ctx, B + key, [SP(build(cs)), SP(build(c2))])
                t.where = b.name
                build_case(t, '%s with %s' % (list(sh), list(sh2)), I_, outs, c2 + cs if front else cs + c2, fallible)
        total += t.done(least=len(BASES) ** 2)
    lists = BASES + [(0,), (1, 0), (0, 1), (201,), (1, 201), (1,) * 9, (30,) * 8, (120, 121), (200, 41), (1, 0, 1), (1, 300, 1), (2,) * 9, (1,) * 12]
    t = Table(ctx, 'extend_from_iter')
    for sh in BASES if ctx.thorough else BASES[:6]:
        for sh2 in lists:
            cs, c2 = comps(sh), comps(sh2, 'c')
            I_, outs, b = run(ctx, B + 'extend_from_iter', [SP(build(cs)), eseq(c2)])
            t.where = b.name
            build_case(t, '%s with %s' % (list(sh), list(sh2)), I_, outs, cs + c2, True)
    total += t.done(least=150)
    for key, path, fallible in (('try_from_iter', B + 'try_from_iter', True), ('from_iter', '<SpaceBytes<Vec<u8>> as FromIterator<&[u8]>>::from_iter', False),
                                ('space_buf', 'space::space_buf', False), ('try_from', "<SpaceBytes<Vec<u8>> as TryFrom<&[&[u8]]>>::try_from", True)):
        t = Table(ctx, key)
        for sh in lists:
            cs = comps(sh)
            I_, outs, b = run(ctx, path, [eseq(cs)])
            t.where = b.name
            build_case(t, 'components of %s bytes' % list(sh), I_, outs, cs, fallible)
        total += t.done(least=len(lists))
    ctx.floor('cases', total, 1500)


def shapes(ctx):
    small = [x for n in range(12 if ctx.thorough else 9) for x in compositions(n)]
    return small + [(1,) * 4, (1,) * 7, (1,) * 8, (2, 1, 3, 1, 2, 1, 1, 2), (200,), (200, 39), (200, 40), (39, 200), (29,) * 8, (120, 119)]


def is_list(v, cs):
    es = elems(v)
    return es is not None and len(es) == len(cs) and all(same_val(x, c) for x, c in zip(es, cs))


def opt(v, c, f=same_val):
    return is_adt(v, 'None') if c is None else is_some(v, lambda x: f(x, c))


def follow(ctx, I_, path, st, it, limit=20):
    """items of an iterator value by the next() of its type: [(state, items or None)]"""
    nb, env = ctx.method(PK, path)
    out, todo = [], [(st, it, [])]
    while todo:
        s, i, items = todo.pop()
        if len(items) > limit:
            out.append((s, None))
            continue
        s = s.copy()
        c = ref_cell(s, 'it', i)
        for o in arms(I_.run_body(nb, dict(env), [c], s, None)):
            v = I_.content(o.st, o.v) if o.kind == 'ret' else UNIT
            if is_adt(v, 'None'):
                out.append((o.st, items))
            elif is_adt(v, 'Some'):
                todo.append((o.st, I_.content(o.st, c), items + [v.a[2][0]]))
            else:
                out.append((o.st, None))
    return out


@rule('C27', level='proof', build='pkt', trusted=TRUST,
      rule='every part taken from a well-formed space of symbolic components, compared with the list of its components')
def c27(ctx):
    total = 0
    SH = shapes(ctx)
    sp = lambda c: (lambda v: is_space(v, c))
    ROWS = {
        'head': (S + 'head', lambda v, c: opt(v, c[0] if c else None)),
        'tail': (S + 'tail', lambda v, c: is_space(v, c[1:])),
        'parent': (S + 'parent', lambda v, c: opt(v, c[:-1], is_space) if c else is_adt(v, 'None')),
        'pop': (S + 'pop', lambda v, c: is_space(v.a[0], c[:-1]) and opt(v.a[1], c[-1] if c else None)),
        'split_last': (S + 'split_last', lambda v, c: is_space(v.a[0], c[:-1]) and opt(v.a[1], c[-1:] if c else None, is_space)),
        'split_first': (S + 'split_first', lambda v, c: is_adt(v, 'None') if not c else is_some(v, lambda x: same_val(x.a[0], c[0]) and is_space(x.a[1], c[1:]))),
        'first': (S + 'first', lambda v, c: same_val(v, c[0] if c else EMPTY)),
        'to_array': (S + 'to_array', lambda v, c: is_list(v, c)),
        'size': (S + 'size', lambda v, c: v is I(size(c))),
        'is_empty': (S + 'is_empty', lambda v, c: v.op == 'i' and v.a[0] == (not c)),
        'calc_depth': (B + 'calc_depth', lambda v, c: v is I(len(c))),
        'components': (B + 'components', lambda v, c: is_ok(v, lambda x: is_list(x, c))),
        'into_spacebuf': (S + 'into_spacebuf', lambda v, c: is_space(v, c)),
    }
    for key, (path, good) in ROWS.items():
        t = Table(ctx, key)
        for sh in SH:
            cs = comps(sh)
            I_, outs, b = run(ctx, path, [SP(build(cs))])
            t.where = b.name
            t.case(str(list(sh)), outs, lambda o: good(val(I_, o), cs))
        total += t.done(least=len(SH))
    t = Table(ctx, 'truncate_last')
    for sh in SH:
        cs = comps(sh)
        st = State()
        c = ref_cell(st, 's', SP(build(cs)))
        I_, outs, b = run(ctx, B + 'truncate_last', [c], st)
        t.where = b.name
        t.case(str(list(sh)), outs, lambda o: is_space(I_.content(o.st, c), cs[:-1]))
    total += t.done(least=len(SH))
    t = Table(ctx, 'split_at')
    for sh in SH:
        for n in list(range(len(sh) + 2)) + [9, 255]:
            cs = comps(sh)
            I_, outs, b = run(ctx, S + 'split_at', [SP(build(cs)), I(n)])
            t.where = b.name
            t.case('%s at %d' % (list(sh), n), outs, lambda o: is_space(val(I_, o).a[0], cs[:n]) and is_space(val(I_, o).a[1], cs[n:]))
    total += t.done(least=4 * len(SH))
    # the iterators
    t = Table(ctx, 'iter')
    for sh in SH:
        cs = comps(sh)
        I_, outs, b = run(ctx, S + 'iter', [SP(build(cs))])
        t.where = b.name
        for o in outs:
            for s, items in follow(ctx, I_, '<&SpaceIter as Iterator>::next', o.st, val(I_, o)):
                t.case(str(list(sh)), [Out('ret', UNIT, s)], lambda o: same_items(s, items, cs))
    total += t.done(least=len(SH))
    t = Table(ctx, 'scan_space')
    for sh in SH:
        cs = comps(sh)
        I_, outs, b = run(ctx, S + 'scan_space', [SP(build(cs))])
        t.where = b.name
        for o in outs:
            for s, items in drain(I_, Frame(b, {}, 0, None, None), o):
                t.case(str(list(sh)), [Out('ret', UNIT, s)], lambda o: len(items) == len(cs) and all(is_space(I_.content(s, x), cs[:i + 1]) for i, x in enumerate(items)))
    total += t.done(least=len(SH))
    # tracking
    t = Table(ctx, 'track')
    for sh in SH:
        cs = comps(sh)
        I_, outs, b = run(ctx, S + 'track', [SP(build(cs))])
        t.where = b.name
        todo = [(o.st, o.v, 0) for o in outs]
        while todo:
            s, tk, i = todo.pop()
            what = '%s after %d' % (list(sh), i)
            tk = I_.content(s, tk)
            for f, good in (('full', lambda v: is_space(v, cs)), ('rest', lambda v: is_space(v, cs[i:])), ('upto', lambda v: is_space(v, cs[:i])),
                            ('component', lambda v: opt(v, cs[i] if i < len(cs) else None))):
                I2, o2, _ = run(ctx, 'Track::' + f, [tk], s.copy())
                t.case('%s %s' % (what, f), o2, lambda o: good(val(I2, o)))
            I2, o2, _ = run(ctx, 'Track::next', [tk], s.copy())
            t.case(what + ' next', o2, lambda o: is_adt(val(I2, o), 'Some' if i < len(cs) else 'None'))
            if i < len(cs):
                todo += [(o.st, val(I2, o).a[2][0], i + 1) for o in o2 if o.kind == 'ret' and is_adt(val(I2, o), 'Some')]
    total += t.done(least=6 * len(SH))
    # prefixes
    PRE = [x for x in SH if sum(x) < 12] if ctx.thorough else [x for x in SH if sum(x) + len(x) < 6] + [(2, 1, 3, 1, 2, 1, 1, 2)]
    tabs = {k: Table(ctx, k) for k in ('starts_with', 'strip_prefix', 'drop_prefix')}
    for key, t in tabs.items():
        for sh in PRE:
            cs = comps(sh)
            cases = [(cs[:k], True) for k in range(len(cs) + 1)] + [(comps(s2, 'c'), None) for s2 in PRE if len(s2) <= len(sh) + 1]
            for pf, _ in cases:
                I_, outs, b = run(ctx, S + key, [SP(build(cs)), SP(build(pf))])
                t.where = b.name
                seen = set()
                for o in outs:
                    for same, s in agree(o.st, elems(build(cs)), elems(build(pf))):
                        seen.add(same)
                        what = '%s of %s' % ([length(x).a[0] for x in pf], list(sh))
                        o2 = Out(o.kind, o.v, s)
                        if key == 'starts_with':
                            t.case(what, [o2], lambda o: is_bool(s, val(I_, o), same))
                        elif key == 'strip_prefix':
                            t.case(what, [o2], lambda o: opt(val(I_, o), cs[len(pf):] if same else None, is_space))
                        elif same:
                            t.case(what, [o2], lambda o: is_space(val(I_, o), cs[len(pf):]))
                        else:
                            stops(t, what, [o2])
                if not outs:
                    t.bad.append('no outcome')
        total += t.done(least=100)
    ctx.floor('cases', total, 1500)


def agree(st, a, b):
    """whether the bytes a start with the bytes b, on this path: [(bool, state)]"""
    if len(b) > len(a):
        return [(False, st)]
    out, cur = [], st.copy()
    for x, y in zip(a, b):
        d = cur.norm(eq(cur.norm(x), cur.norm(y)))
        if d.op != 'i':
            k = cur.decide(d)
            d = d if k is None else k if isinstance(k, T) else B(k)
        if d.op == 'i':
            if not d.a[0]:
                return out + [(False, cur)]
            continue
        s = cur.copy()
        if s.assume(d, FALSE) and not s.dead:
            out.append((False, s))
        if not cur.assume(d, TRUE) or cur.dead:
            return out
    return out + [(True, cur)]


def is_bool(st, v, want):
    v = st.norm(v)
    if v.op == 'i':
        return bool(v.a[0]) == want
    return st.decide(v) is want


R_, RB = 'RootedSpaceBytes::<[u8]>::', 'RootedSpaceBytes::<Vec<u8>>::'
RS = lambda v: adt('RootedSpaceBytes', None, v)
MAXR = MAXS + 8


def index_of(cs):
    """the eight bytes before the components: how many, and where the first seven end"""
    out, at = [len(cs)], 0
    for i in range(7):
        if i < len(cs):
            at += 1 + length(cs[i]).a[0]
        out.append(at)
    return out


def rooted(cs, empty=True):
    if not cs and empty:
        return EMPTY
    return concat(bseq(bytes(index_of(cs))), build(cs))


def is_rooted(v, cs):
    return v.op == 'adt' and v.a[0] == 'RootedSpaceBytes' and same_val(inside(v), rooted(cs))


@rule('C28', level='proof', build='pkt', trusted=TRUST,
      rule='the index of every rooted space made or accepted, and every part read through it, compared with the list of components')
def c28(ctx):
    total = 0
    SH = shapes(ctx)
    bad = [(201,), (200, 41), (1,) * 9, (0,), (2, 0), (1, 201), (120, 121), (30,) * 8, (1,) * 12]
    # acceptance: the index bytes unknown
    ACC = [('check_components', R_ + 'check_components', RS, lambda v, b: is_ok(v, lambda x: x is UNIT)),
           ('from', R_ + 'from', lambda b: b, lambda v, b: is_ok(v, lambda x: x.a[0] == 'RootedSpaceBytes' and same_val(inside(x), b)))]
    for key, path, wrap, good in ACC:
        t = Table(ctx, key)
        for n in range(8):
            bs = array(n)
            I_, outs, b = run(ctx, path, [wrap(bs)])
            t.where = b.name
            t.case('%d bytes' % n, outs, (lambda o: is_err(val(I_, o))) if n else (lambda o: good(val(I_, o), bs)))
        for sh in SH + bad:
            cs = comps(sh)
            if sum(sh) + len(sh) > 255:
                continue
            h = u8syms('h', 8)
            bs = concat(eseq(h), build(cs))
            I_, outs, b = run(ctx, path, [wrap(bs)])
            yes = 0
            for o in outs:
                for same, s in agree(o.st, h, [I(x, 'u8') for x in index_of(cs)]) if valid(cs) else [(False, o.st)]:
                    yes += same
                    o2 = Out(o.kind, o.v, s)
                    t.case('%s with %s index' % (list(sh), 'its' if same else 'another'), [o2], lambda o: good(val(I_, o), bs) if same else is_err(val(I_, o)))
            if valid(cs) and not yes:
                t.bad.append('%s with its index: no outcome' % list(sh))
        for n in range(1, 9 if ctx.thorough else 7):
            # the components unknown, the index unknown
            bs = array(n, 's')
            h = u8syms('h', 8)
            I_, outs, b = run(ctx, path, [wrap(concat(eseq(h), bs))])
            for o in outs:
                for s, cs in readings(o.st, bs):
                    ccs = None if cs is None else [eseq(c) for c in cs]
                    for same, s2 in agree(s, h, [I(x, 'u8') for x in index_of(ccs)]) if ccs is not None and valid(ccs) else [(False, s)]:
                        o2 = Out(o.kind, o.v, s2)
                        t.case('%d bytes read as %s' % (n, cs and list(map(len, cs))), [o2], lambda o: good(val(I_, o), concat(eseq(h), bs)) if same else is_err(val(I_, o)))
        total += t.done(least=150)
    # making
    t = Table(ctx, 'try_into_rooted')
    for sh in SH + bad:
        cs = comps(sh)
        I_, outs, b = run(ctx, S + 'try_into_rooted', [SP(build(cs))])
        t.where = b.name
        t.case(str(list(sh)), outs, (lambda o: is_ok(val(I_, o), lambda x: is_rooted(x, cs))) if valid(cs) else (lambda o: is_err(val(I_, o))))
    total += t.done(least=len(SH))
    t = Table(ctx, 'rooted')
    for sh in SH + bad:
        cs = comps(sh)
        I_, outs, b = run(ctx, S + 'rooted', [SP(build(cs))])
        t.where = b.name
        if valid(cs):
            t.case(str(list(sh)), outs, lambda o: is_rooted(val(I_, o), cs))
        else:
            stops(t, str(list(sh)), outs)
    total += t.done(least=len(SH))
    t = Table(ctx, 'append')
    t2 = Table(ctx, 'try_append_component')
    for sh in BASES:
        for empty in ([True, False] if not sh else [True]):
            for n in SIZES:
                cs, c = comps(sh), comp(n)
                start = RS(rooted(cs, empty))
                what = '%d bytes onto %s' % (n, list(sh))
                I_, outs, b = run(ctx, RB + 'append', [start, c])
                t.where = b.name
                if valid(cs + [c]):
                    t.case(what, outs, lambda o: is_rooted(val(I_, o), cs + [c]))
                else:
                    stops(t, what, outs)
                st = State()
                r = ref_cell(st, 'r', start)
                I_, outs, b = run(ctx, RB + 'try_append_component', [r, c], st)
                t2.where = b.name
                if valid(cs + [c]):
                    t2.case(what, outs, lambda o: is_ok(val(I_, o), lambda x: True) and is_rooted(I_.content(o.st, r), cs + [c]))
                else:
                    t2.case(what, outs, lambda o: is_err(val(I_, o)) and (not cs or is_rooted(I_.content(o.st, r), cs)))
    total += t.done(least=150) + t2.done(least=150)
    lists = BASES + [(0,), (1, 0), (0, 1), (201,), (1, 201), (1,) * 9, (30,) * 8, (120, 121), (200, 41), (1, 0, 1), (1, 300, 1), (2,) * 9]
    for key, path, fallible in (('try_from_iter', RB + 'try_from_iter', True), ('rspace_buf', 'rooted_space::rspace_buf', False)):
        t = Table(ctx, key)
        for sh in lists:
            cs = comps(sh)
            I_, outs, b = run(ctx, path, [eseq(cs)])
            t.where = b.name
            if valid(cs):
                t.case(str(list(sh)), outs, lambda o: is_ok(val(I_, o), lambda x: is_rooted(x, cs)) if fallible else is_rooted(val(I_, o), cs))
            elif fallible:
                t.case(str(list(sh)), outs, lambda o: is_err(val(I_, o)))
            else:
                stops(t, str(list(sh)), outs)
        total += t.done(least=len(lists))
    for key, fallible in (('try_join', True), ('join', False)):
        t = Table(ctx, key)
        for sh in BASES:
            for sh2 in BASES:
                cs, c2 = comps(sh), comps(sh2, 'c')
                I_, outs, b = run(ctx, RB + key, [RS(rooted(cs)), SP(build(c2))])
                t.where = b.name
                what = '%s with %s' % (list(sh), list(sh2))
                if valid(cs + c2):
                    t.case(what, outs, lambda o: is_ok(val(I_, o), lambda x: is_rooted(x, cs + c2)) if fallible else is_rooted(val(I_, o), cs + c2))
                elif fallible:
                    t.case(what, outs, lambda o: is_err(val(I_, o)))
                else:
                    stops(t, what, outs)
        total += t.done(least=150)
    # reading
    num = lambda v, n: v.op == 'i' and v.a[0] == n
    at = lambda c, i: c[i] if i < len(c) else EMPTY
    ROWS = {
        'space': lambda v, c: is_space(v, c),
        'depth': lambda v, c: num(v, len(c)),
        'space_depth': lambda v, c: num(v, len(c)),
        'is_empty': lambda v, c: v.op == 'i' and v.a[0] == (not c),
        'last': lambda v, c: same_val(v, c[-1] if c else EMPTY),
        'components': lambda v, c: len(elems(v)) == 8 and all(is_space(x, c[i:i + 1]) for i, x in enumerate(elems(v))),
        'comps_bytes': lambda v, c: len(elems(v)) == 8 and all(same_val(x, at(c, i)) for i, x in enumerate(elems(v))),
        'into_buf': lambda v, c: v.a[0] == 'RootedSpaceBytes' and same_val(inside(v), rooted(c)),
        'rooted_bytes': lambda v, c: same_val(v, rooted(c)),
        'fields': lambda v, c: num(v.a[0], len(c)) and is_space(v.a[2], c) and [x.a[0] for x in elems(v.a[1])] == [0] + index_of(c)[1:] + [size(c)],
    }
    for i in range(8):
        ROWS['comp%d' % i] = lambda v, c, i=i: same_val(v, at(c, i))
    for key, good in ROWS.items():
        t = Table(ctx, key)
        for sh in SH:
            cs = comps(sh)
            I_, outs, b = run(ctx, R_ + key, [RS(rooted(cs))])
            t.where = b.name
            t.case(str(list(sh)), outs, lambda o: good(val(I_, o), cs))
        total += t.done(least=len(SH))
    t = Table(ctx, 'comp')
    for sh in SH:
        for i in range(8):
            cs = comps(sh)
            I_, outs, b = run(ctx, R_ + 'comp', [RS(rooted(cs)), I(i)])
            t.where = b.name
            t.case('%s at %d' % (list(sh), i), outs, lambda o: same_val(val(I_, o), at(cs, i)))
    total += t.done(least=8 * len(SH))
    t = Table(ctx, 'range')
    for sh in SH:
        for lo in range(9):
            for hi in range(lo, 9):
                if len(sh) < 6 and (lo, hi) != (0, 8) and hi > len(sh) + 1:
                    continue
                cs = comps(sh)
                I_, outs, b = run(ctx, R_ + 'range', [RS(rooted(cs)), adt('Range', None, I(lo), I(hi))])
                t.where = b.name
                t.case('%s at %d..%d' % (list(sh), lo, hi), outs, lambda o: is_space(val(I_, o), cs[lo:hi]))
    total += t.done(least=8 * len(SH))
    t = Table(ctx, 'iter')
    for sh in SH:
        cs = comps(sh)
        I_, outs, b = run(ctx, R_ + 'iter', [RS(rooted(cs))])
        t.where = b.name
        for o in outs:
            for s, items in drain(I_, Frame(b, {}, 0, None, None), o):
                t.case(str(list(sh)), [Out('ret', UNIT, s)], lambda o: len(items) == len(cs) and all(same_val(I_.content(s, x), c) for x, c in zip(items, cs)))
    total += t.done(least=len(SH))
    ctx.floor('cases', total, 3000)
