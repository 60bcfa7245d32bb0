"""C05 function-call guard, C06 scope chains, C10 expression evaluation, C45 encoder selection."""
from check import rule
from dom import *
from interp import Out
from rules.trans import *
from rules.util import *
import itertools

SCOPE_METHODS = ('try_apply_func', 'try_apply_macro', 'try_encode')


class ScopeHook:
    """calls of Scope methods on scopes nothing is known about become uninterpreted functions of their arguments"""

    def __init__(self, lists=None):
        self.lists = lists or {}
        self.n = 0

    def on_call(self, I_, fr, st, info, args, site):
        if not args or info.self is None:
            return None
        tr = info.trait.n if info.trait is not None else info.self_ty.n
        if tr == 'Scope' and info.method in SCOPE_METHODS:
            v = I_.deref(st, args[0])
            if v.op in ('adt', 'tup'):
                return None
            self.n += 1
            return [Out('ret', app('call:Scope:' + info.method, *[I_.content(st, a) for a in args]), st)]
        if tr == 'EvalScopeImpl' and info.method in self.lists:
            self.n += 1
            return [Out('ret', self.lists[info.method], st)]
        return None


RES = {0: 'NoValue', 1: 'Value', 2: 'Err'}


def call(m, *a):
    return app('call:Scope:' + m, *a)


def variant(st, c):
    f = fact(st, app('discr', c))
    return RES.get(f.a[0]) if f is not None and f.op == 'i' else None


def arms(outs):
    return [o for o in outs if not o.st.dead]


# ---------------------------------------------------------------------------------------------- C05
def fn_entry(i, init_eq, to_abe):
    info = adt('ScopeFuncInfo', None, sym('id%d' % i), init_eq, to_abe, adt('RangeInclusive', None, sym('lo%d' % i), sym('hi%d' % i)), sym('help%d' % i))
    return adt('ScopeFunc', None, sym('apply%d' % i), sym('toabe%d' % i), info)


def field_order(ctx):
    """the layouts the rule builds values for"""
    P = ctx.P
    want = {'ScopeFunc': ['apply', 'to_abe', 'info'], 'ScopeFuncInfo': ['id', 'init_eq', 'to_abe', 'argc', 'help'],
            'ScopeMacro': ['apply', 'info'], 'ScopeMacroInfo': ['id', 'help']}
    for k, v in want.items():
        got = P.fields.get(k)
        if got is not None and list(got) != v:
            return {k: list(got)}
    return {}


def mk(P, ty, **kw):
    fs = P.fields.get(ty)
    if fs is None or set(fs) != set(kw):
        return None
    return T('adt', (ty, None, tuple(kw[f] for f in fs)))


def entry(P, i, init_eq, to_abe):
    info = mk(P, 'ScopeFuncInfo', id=sym('id%d' % i), init_eq=init_eq, to_abe=to_abe, argc=adt('RangeInclusive', None, sym('lo%d' % i), sym('hi%d' % i)), help=sym('help%d' % i))
    return info and mk(P, 'ScopeFunc', apply=sym('apply%d' % i), to_abe=sym('toabe%d' % i), info=info)


def macro_entry(P, i):
    info = mk(P, 'ScopeMacroInfo', id=sym('id%d' % i), help=sym('help%d' % i))
    return info and mk(P, 'ScopeMacro', apply=sym('apply%d' % i), info=info)


def is_value_call(v, f, *args):
    return v.op == 'call:call_value' and v.a[0] is f and len(v.a) == 1 + len(args) and all(x is y for x, y in zip(v.a[1:], args))


def cls(o, args):
    """what an outcome does: ('apply', i) | 'NoValue' | 'Err' | text"""
    if o.kind != 'ret':
        return 'panic: %s' % (o.v[0] if isinstance(o.v, tuple) else o.v)
    v = o.v
    if is_adt(v, 'NoValue'):
        return 'NoValue'
    if is_adt(v, 'Err'):
        return 'Err'
    for i in range(4):
        for nm in ('apply', 'toabe'):
            if is_value_call(v, sym('%s%d' % (nm, i)), *args):
                return (nm, i)
    return show(v)[:160]


@rule('C05', level='proof', rule='abstract interpretation of EScope over symbolic function tables: every path classified by the guards it passed, compared with the documented dispatch rule')
def c05(ctx):
    P = ctx.P
    if entry(P, 0, NONE, TRUE) is None or macro_entry(P, 0) is None:
        ctx.ob('anchor/ScopeFunc', False, 'ScopeFunc/ScopeFuncInfo/ScopeMacro no longer have the fields this rule builds')
        return
    Ts, idv, X, scope = sym('T'), sym('id'), sym('X'), sym('scope')
    me = adt('EScope', None, Ts)
    body, env = ctx.method('abe', '<eval::EScope<T> as eval::Scope>::try_apply_func')
    n = 0
    opts = {None: NONE, True: some(TRUE), False: some(FALSE)}
    for k in (0, 1, 2) + ((3,) if ctx.thorough else ()):
        for ie in itertools.product(opts, repeat=k):
            for init in (True, False):
                lst = eseq([entry(P, i, opts[e], sym('tb%d' % i)) for i, e in enumerate(ie)])
                hk = ScopeHook({'list_funcs': lst})
                I_ = ctx.interp(hooks=[hk], table=True, part=4000, unroll_width=4000)
                outs = arms(I_.run_body(body, env, [me, idv, X, B(init), scope], State(), None))
                bad = []
                vals = (0, 1, 2)
                for ids in itertools.product((0, 1), repeat=k):
                    for rng in itertools.product(itertools.product(vals, repeat=2), repeat=k) if k < 2 or ids.count(0) else [((0, 0),) * k]:
                        for ln in vals:
                            e = {idv: 0, length(X): ln}
                            for i in range(k):
                                e[sym('id%d' % i)], e[sym('lo%d' % i)], e[sym('hi%d' % i)] = ids[i], rng[i][0], rng[i][1]
                            want = 'NoValue'
                            for i in range(k):
                                if ids[i] == 0:
                                    fits = rng[i][0] <= ln <= rng[i][1] and (ie[i] is None or ie[i] == init)
                                    want = ('apply', i) if fits else 'Err'
                                    break
                            got = [cls(o, (Ts, X, B(init), scope)) for o in outs if consistent(o.st, e)]
                            n += 1
                            if not got or any(g != want for g in got):
                                bad.append('table %s (id match %s, argc %s), init=%s, %d inputs: expected %s, the code %s' % (
                                    ie, [not x for x in ids], list(rng), init, ln, want, [g for g in got if g != want][:2] or 'has no path'))
                ctx.ob('func/%d/%s/init=%s' % (k, ','.join(map(str, ie)), init), not bad, '; '.join(bad[:2]) or '%d outcomes' % len(outs), body.name)
    ctx.notes['guard_cases'] = n
    # encoders
    body, env = ctx.method('abe', '<eval::EScope<T> as eval::Scope>::try_encode')
    bs, ops = sym('bytes'), sym('options')
    for k in (0, 1, 2, 3):
        lst = eseq([entry(P, i, NONE, sym('tb%d' % i)) for i in range(k)])
        for i in range(k):
            pass
        I_ = ctx.interp(hooks=[ScopeHook({'list_funcs': lst})], table=True, part=4000, unroll_width=4000)
        outs = arms(I_.run_body(body, env, [me, idv, ops, bs], State(), None))
        bad = []
        for ids in itertools.product((0, 1), repeat=k):
            for tb in itertools.product((0, 1), repeat=k):
                e = {idv: 0}
                for i in range(k):
                    e[sym('id%d' % i)], e[sym('tb%d' % i)] = ids[i], tb[i]
                want = next((('toabe', i) for i in range(k) if ids[i] == 0 and tb[i]), 'NoValue')
                got = [cls(o, (Ts, bs, ops)) for o in outs if consistent(o.st, e)]
                if not got or any(g != want for g in got):
                    bad.append('id match %s, encodes %s: expected %s, the code %s' % ([not x for x in ids], tb, want, got[:2]))
        ctx.ob('encode/%d' % k, not bad, '; '.join(bad[:2]) or '%d outcomes' % len(outs), body.name)
    body, env = ctx.method('abe', '<eval::EScope<T> as eval::Scope>::try_apply_macro')
    for k in (0, 1, 2, 3):
        lst = eseq([macro_entry(P, i) for i in range(k)])
        I_ = ctx.interp(hooks=[ScopeHook({'list_macros': lst})], table=True, part=4000, unroll_width=4000)
        outs = arms(I_.run_body(body, env, [me, idv, X, scope], State(), None))
        bad = []
        for ids in itertools.product((0, 1), repeat=k):
            e = {idv: 0}
            for i in range(k):
                e[sym('id%d' % i)] = ids[i]
            want = next((('apply', i) for i in range(k) if ids[i] == 0), 'NoValue')
            got = [cls(o, (Ts, X, scope)) for o in outs if consistent(o.st, e)]
            if not got or any(g != want for g in got):
                bad.append('id match %s: expected %s, the code %s' % ([not x for x in ids], want, got[:2]))
        ctx.ob('macro/%d' % k, not bad, '; '.join(bad[:2]) or '%d outcomes' % len(outs), body.name)


# ---------------------------------------------------------------------------------------------- C06
def norm_res(o, cs):
    """(variant, source call or None) of an ApplyResult outcome given the calls it may come from"""
    if o.kind != 'ret':
        return ('panic', None)
    v = o.v
    for c in cs:
        if v is c:
            return (variant(o.st, c) or 'any', c)
    if v.op == 'adt' and v.a[0] in ('ApplyResult', 'AR'):
        if v.a[1] == 'NoValue':
            return ('NoValue', None)
        x = v.a[2][0]
        for c in cs:
            if x is app('fld', c, v.a[1], 0):
                return (v.a[1], c)
        return (v.a[1], None)
    return ('?' + show(v)[:120], None)


def chain_rule(ctx, key, path, self_v, parts, calls_of, fixed=None):
    """the result is that of the first part that has one, asked in order with the same arguments"""
    for m, rest in (('try_apply_func', (sym('id'), sym('X'), sym('init'), sym('sc'))), ('try_apply_macro', (sym('id'), sym('X'), sym('sc'))),
                    ('try_encode', (sym('id'), sym('X'), sym('bytes')))):
        r = ctx.P.resolve('abe', path % m)
        if r is None:
            ctx.ob('%s/%s' % (key, m), False, 'implementation not found: ' + path % m)
            continue
        hk = ScopeHook()
        I_ = ctx.interp(hooks=[hk], table=True)
        outs = arms(I_.run_body(r[0], r[1], [self_v] + list(rest), State(), None))
        bad = []
        if fixed is not None:
            for o in outs:
                g = norm_res(o, ())
                if g[0] != fixed:
                    bad.append('expected %s, the code gives %s' % (fixed, g[0]))
        else:
            cs = [call(m, p, *rest) for p in parts]
            for ds in itertools.product((0, 1, 2), repeat=len(cs)):
                j = next((j for j, d in enumerate(ds) if d != 0), None)
                want = ('NoValue', None) if j is None else (RES[ds[j]], cs[j])
                hit = 0
                for o in outs:
                    if not all(_disc(o.st, c, d) for c, d in zip(cs, ds)):
                        continue
                    hit += 1
                    v, c = norm_res(o, cs)
                    if v == 'any':
                        v = RES[ds[cs.index(c)]]
                    if v == 'NoValue':
                        c = None
                    if (v, c) != want:
                        bad.append('parts give %s: expected %s of part %s, the code gives %s of part %s' % (
                            [RES[d] for d in ds], want[0], j, v, cs.index(c) if c in cs else None))
                if not hit:
                    bad.append('parts give %s: no path' % ([RES[d] for d in ds],))
        ctx.ob('%s/%s' % (key, m), not bad, '; '.join(bad[:2]) or '%d paths' % len(outs), r[0].name)


def _disc(st, c, d):
    f = st.facts.get(app('discr', c))
    if f is None:
        return True
    if f[0] == '=' and f[1].op == 'i':
        return f[1].a[0] == d
    return not (f[0] == 'ne' and d in f[1])


@rule('C06', level='proof', rule='abstract interpretation of every Scope combinator with uninterpreted inner scopes; all combinations of inner results compared with first-answer-wins')
def c06(ctx):
    a, b, c = sym('A'), sym('B'), sym('C')
    chain_rule(ctx, 'unit', '<() as eval::Scope>::%s', UNIT, (), None, fixed='NoValue')
    chain_rule(ctx, 'none', '<Option<A> as eval::Scope>::%s', NONE, (), None, fixed='NoValue')
    chain_rule(ctx, 'some', '<Option<A> as eval::Scope>::%s', some(a), (a,), None)
    chain_rule(ctx, 'ref', '<&A as eval::Scope>::%s', a, (a,), None)
    chain_rule(ctx, 'rc', '<std::rc::Rc<A> as eval::Scope>::%s', a, (a,), None)
    chain_rule(ctx, 'arc', '<std::sync::Arc<A> as eval::Scope>::%s', a, (a,), None)
    chain_rule(ctx, 'ok', '<std::result::Result<A, anyhow::Error> as eval::Scope>::%s', ok(a), (a,), None)
    chain_rule(ctx, 'err', '<std::result::Result<A, anyhow::Error> as eval::Scope>::%s', err(sym('e')), (), None, fixed='Err')
    chain_rule(ctx, 'pair', '<(A, B) as eval::Scope>::%s', tup(a, b), (a, b), None)
    chain_rule(ctx, 'triple', '<(A, B, C) as eval::Scope>::%s', tup(a, b, c), (a, b, c), None)
    apply_result(ctx)


def AR(v, *x):
    return adt('ApplyResult', v, *x)


def apply_result(ctx):
    """ApplyResult's combinators keep the three cases apart"""
    x, e, f = sym('x'), sym('e'), sym('f')
    V, E, N = AR('Value', x), AR('Err', e), AR('NoValue')

    def go(path, args, key, want):
        r = ctx.P.resolve('abe', path)
        if r is None:
            ctx.ob('result/' + key, False, 'not found: ' + path)
            return
        I_ = ctx.interp()
        outs = arms(I_.run_body(r[0], r[1], args, State(), None))
        bad = [show(o.v)[:120] if o.kind == 'ret' else 'panic' for o in outs if o.kind != 'ret' or not want(o.v)]
        ctx.ob('result/' + key, outs and not bad, 'gives ' + '; '.join(bad[:2]) if bad else '%d paths' % len(outs), r[0].name)
    R = 'eval::ApplyResult::<V>::'

    def same(y):
        return lambda v: v is y

    def errv(v):
        return is_adt(v, 'Err')
    other = call('other')
    go(R + 'or_else', [V, f], 'or_else/Value', same(V))
    go(R + 'or_else', [E, f], 'or_else/Err', same(E))
    go(R + 'or_else', [N, f], 'or_else/NoValue', lambda v: v.op == 'call:call_value' and v.a[0] is f)
    go(R + 'map::<X>', [V, f], 'map/Value', lambda v: is_adt(v, 'Value') and v.a[2][0].op == 'call:call_value' and v.a[2][0].a[:2] == (f, x))
    go(R + 'map::<X>', [E, f], 'map/Err', same(E))
    go(R + 'map::<X>', [N, f], 'map/NoValue', same(N))
    go(R + 'into_ok', [V], 'into_ok/Value', same(ok(some(x))))
    go(R + 'into_ok', [E], 'into_ok/Err', same(err(e)))
    go(R + 'into_ok', [N], 'into_ok/NoValue', same(ok(NONE)))
    go(R + 'into_opt', [V], 'into_opt/Value', same(some(ok(x))))
    go(R + 'into_opt', [E], 'into_opt/Err', same(some(err(e))))
    go(R + 'into_opt', [N], 'into_opt/NoValue', same(NONE))
    go(R + 'require', [V, sym('m')], 'require/Value', same(V))
    go(R + 'require', [E, sym('m')], 'require/Err', errv)
    go(R + 'require', [N, sym('m')], 'require/NoValue', errv)
    go(R + 'context::<C>', [V, sym('m')], 'context/Value', same(V))
    go(R + 'context::<C>', [E, sym('m')], 'context/Err', errv)
    go(R + 'context::<C>', [N, sym('m')], 'context/NoValue', same(N))
    B_ = '<eval::ApplyResult<V> as std::ops::Try>::'

    def brk(y):
        return lambda v: is_adt(v, 'Break') and v.a[2][0] is y
    go(B_ + 'branch', [V], 'try/Value', lambda v: is_adt(v, 'Continue') and v.a[2][0] is x)
    go(B_ + 'branch', [E], 'try/Err', brk(E))
    go(B_ + 'branch', [N], 'try/NoValue', brk(N))
    go(B_ + 'from_output', [x], 'try/from_output', same(V))
    F = '<eval::ApplyResult<V> as std::ops::FromResidual<%s>>::from_residual'
    go(F % 'eval::ApplyResult<V>', [E], 'residual/Err', same(E))
    go(F % 'eval::ApplyResult<V>', [N], 'residual/NoValue', same(N))
    go(F % 'Option<Infallible>', [NONE], 'residual/None', same(N))
    go(F % 'Result<Infallible, E>', [err(e)], 'residual/Result', errv)
    C = '<eval::ApplyResult<V> as From<%s>>::from'
    go(C % 'Option<V>', [some(x)], 'from/Some', same(V))
    go(C % 'Option<V>', [NONE], 'from/None', same(N))
    go(C % 'Option<Result<V, E>>', [some(ok(x))], 'from/Some-Ok', same(V))
    go(C % 'Option<Result<V, E>>', [some(err(e))], 'from/Some-Err', errv)
    go(C % 'Option<Result<V, E>>', [NONE], 'from/None-Result', same(N))
    go(C % 'Result<V, anyhow::Error>', [ok(x)], 'from/Ok', same(V))
    go(C % 'Result<V, anyhow::Error>', [err(e)], 'from/Err', errv)


# ---------------------------------------------------------------------------------------------- C10
class Undecided(Exception):
    pass


class EvErr(Exception):
    pass


SC = sym('scope')
CO, FS = ('C', ':'), ('C', '/')


def abe_term(t):
    def node(x):
        if x[0] == 'C':
            return adt('ABE', 'Ctr', adt('Ctr', 'Colon' if x[1] == ':' else 'FSlash'))
        if x[0] == 'B':
            return adt('ABE', 'Expr', adt('Expr', 'Bytes', x[1]))
        return adt('ABE', 'Expr', adt('Expr', 'Lst', abe_term(x[1])))
    return eseq([node(x) for x in t])


def dump(t):
    r = EMPTY
    for x in t:
        if x[0] == 'C':
            r = concat(r, bseq(x[1].encode()))
        elif x[0] == 'B':
            r = concat(r, x[1])
        else:
            r = concat(r, bseq(b'['), dump(x[1]), bseq(b']'))
    return r


def ask(st, c, missing, failed, ident):
    v = variant(st, c)
    if v is None:
        raise Undecided(show(c)[:160])
    if v == 'NoValue':
        raise EvErr((missing, ident))
    if v == 'Err':
        raise EvErr((failed, ident, app('fld', c, 'Err', 0)))
    return app('fld', c, 'Value', 0)


def ev_list(t, st):
    """documented evaluation: list of [ctr, bytes] components"""
    r = []
    for x in t:
        if x[0] == 'C':
            r.append([x[1], EMPTY])
        else:
            b = x[1] if x[0] == 'B' else ev_lst(x[1], st)
            if r:
                r[-1][1] = concat(r[-1][1], b)
            else:
                r.append([None, b])
    return r


def ev_lst(ls, st):
    if ls and ls[0] == FS:
        tail = ls[1:]
        if not tail or tail[0][0] == 'L':
            raise EvErr(('Other',))
        if tail[0] == CO:
            return dump(tail[1:])
        ident, rest = (EMPTY, tail) if tail[0] == FS else (tail[0][1], tail[1:])
        return ask(st, call('try_apply_macro', SC, ident, abe_term(rest), SC), 'NoSuchSubEval', 'SubEval', ident)
    if ls and ls[0][0] == 'L' or len(ls) == 2 and ls[0][0] != 'C' and ls[1][0] != 'C':
        raise EvErr(('Other',))
    comps = ev_list(ls, st)
    carry = EMPTY
    i = 0
    while i < len(comps):
        j = i + 1
        while j < len(comps) and comps[j][0] != '/':
            j += 1
        sub, i = comps[i:j], j
        if len(sub) > 16:
            raise EvErr(('Other',))
        args = [c[1] for c in sub]
        if sub[0][0] == ':':
            carry = concat(*args)
            continue
        ident = args[0]
        init = sub[0][0] is None
        args = args[1:] if init else [carry] + args[1:]
        carry = ask(st, call('try_apply_func', SC, ident, eseq(args), B(init), SC), 'NoSuchFunc', 'Func', ident)
    return carry


def abl_term(r):
    c = {None: NONE, ':': some(adt('Ctr', 'Colon')), '/': some(adt('Ctr', 'FSlash'))}
    return adt('ABList', None, eseq([tup(c[x], b) for x, b in r]))


def expect(t, st):
    try:
        return ('Ok', abl_term(ev_list(t, st)))
    except EvErr as e:
        return ('Err',) + e.args[0]
    except Undecided as e:
        return ('undecided', str(e))


def got_eval(o):
    if o.kind != 'ret':
        return ('panic', str(o.v)[:200])
    v = o.v
    if is_adt(v, 'Ok'):
        x = v.a[2][0]
        return ('Ok', x if x.op != 'adt' else T('adt', ('ABList', None, x.a[2])))
    if is_adt(v, 'Err') and v.a[2][0].op == 'adt':
        e = v.a[2][0]
        return ('Err', 'Other') if e.a[1] == 'Other' else ('Err', e.a[1]) + tuple(e.a[2])
    return ('?', show(v)[:200])


def ambiguous(t):
    """a call whose function name is put together from several expressions: rejecting and accepting it are both in use"""
    for x in t:
        if x[0] == 'L':
            ls = x[1]
            if ambiguous(ls):
                return True
            if ls and ls[0][0] == 'B' and len(ls) > 2 and ls[1][0] != 'C':
                return True
    return False


def eval_trees(thorough):
    b = [('B', sym('b%d' % i)) for i in range(20)]
    out = [()]
    kinds = ['B', ':', '/', 'L']

    def build(w, inner):
        r, n = [], 0
        for k in w:
            if k == 'B':
                r.append(b[n])
                n += 1
            elif k == 'L':
                r.append(('L', inner))
            else:
                r.append(('C', k))
        return tuple(r)
    for n in range(1, (6 if thorough else 5)):
        for w in itertools.product(kinds, repeat=n):
            if n > 4 and 'L' in w or n > 3 and w.count('L') > 1:
                continue
            out.append((('L', build(w, (b[9],))),))
    for n in range(1, 4):
        for w in itertools.product(kinds, repeat=n):
            out.append(build(w, (b[9], CO, b[10])))
    B0, B1, B2 = b[0], b[1], b[2]
    L = lambda *x: ('L', tuple(x))
    out += [(L(B0, CO, L(B1, FS, B2), CO, L(CO, B1)),), (L(B0, FS, B1, FS, B2),), (L(CO, B0, FS, B1, CO, B2, FS, b[3], CO, b[4]),),
            (L(CO, B0, CO, B1, CO, B2, FS, b[3]),), (L(FS, CO, B0, L(B1, CO, L(B2)), FS, CO),), (L(B0, CO, L(), CO, B1),), (L(),), (L(L()),),
            (L(B0, CO, L(FS, B1, CO, L(B2))),), (L(FS, FS, B0),), (L(B0, FS, FS, B1),), (B0, CO, L(B1), FS, L(B2), B0),
            (L(B0, CO, L(B1, CO, L(B2, CO, L(b[3])))),)]
    for k in (14, 15, 16, 17):
        out.append((('L', (B0,) + sum(((CO, b[i % 18 + 1]) for i in range(k)), ())),))
        out.append((('L', (B0, FS, B1) + sum(((CO, b[i % 18 + 1]) for i in range(k)), ())),))
        out.append((('L', (CO,) + sum(((b[i % 18 + 1], CO) for i in range(k)), ())),))
    seen, r = set(), []
    for t in out:
        if t not in seen:
            seen.add(t)
            r.append(t)
    return r


def show_tree(t):
    return ''.join(x[1] if x[0] == 'C' else show(x[1]) if x[0] == 'B' else '[%s]' % show_tree(x[1]) for x in t)


@rule('C10', level='proof', rule='abstract interpretation of eval on symbolic expressions with uninterpreted scopes; result, errors and every scope call compared with the documented evaluation')
def c10(ctx):
    body, env = ctx.method('abe', 'eval::eval')
    trees = eval_trees(ctx.thorough)
    bad, npaths, ncalls, amb = {}, 0, 0, 0
    for t in trees:
        hk = ScopeHook()
        I_ = ctx.interp(hooks=[hk], table=True, part=4000, unroll_width=4000, recursion=12)
        outs = arms(I_.run_body(body, env, [SC, abe_term(t)], State(), None))
        ncalls += hk.n
        for o in outs:
            npaths += 1
            g = got_eval(o)
            if ambiguous(t):
                amb += 1
                if g[0] not in ('Ok', 'Err'):
                    bad.setdefault('any', []).append('%s: %s' % (show_tree(t), g))
                continue
            w = expect(t, o.st)
            if w != g:
                k = 'macro' if '[/' in show_tree(t) else 'pipeline' if '[' in show_tree(t) else 'list'
                bad.setdefault(k, []).append('%s: expected %s, the code gives %s' % (show_tree(t), _sh(w), _sh(g)))
    for k in ('list', 'pipeline', 'macro', 'any'):
        ctx.ob('eval/' + k, not bad.get(k), ' | '.join(bad.get(k, [])[:2]) or 'agrees', body.name)
    ctx.floor('expressions', len(trees), 300)
    ctx.floor('paths', npaths, 800)
    ctx.floor('scope calls', ncalls, 300)
    ctx.notes.update(expressions=len(trees), paths=npaths, scope_calls=ncalls)
    r = ctx.P.resolve('abe', 'eval::dump_abe_bytes')
    if r:
        bad = []
        for t in trees:
            st = State()
            out = ref_cell(st, 'out', seq(('s', sym('pre'))))
            I_ = ctx.interp(table=True, part=4000, unroll_width=4000, recursion=12)
            for o in arms(I_.run_body(r[0], r[1], [out, abe_term(t)], st, None)):
                g = o.st.cells[('rule', 'out')] if o.kind == 'ret' else None
                if g is not concat(sym('pre'), dump(t)):
                    bad.append('%s: %s' % (show_tree(t), show(g)[:100] if g is not None else 'panic'))
        ctx.ob('dump_abe_bytes', not bad, '; '.join(bad[:2]) or '%d expressions' % len(trees), r[0].name)


def _sh(x):
    return '(' + ', '.join(y if isinstance(y, str) else show(y)[:160] for y in x) + ')'


# ---------------------------------------------------------------------------------------------- C45
class EncHook(ScopeHook):
    """additionally leaves the self-check (re-parse and re-evaluation of an encoding) uninterpreted"""

    def on_call(self, I_, fr, st, info, args, site):
        if info.trait is None and (info.method in ('parse_abe_strict_b', 'parse_abe_strict', 'eval', '_eval', 'print_abe') or
                                   info.method == 'as_abtxt' and as_lit(I_.content(st, args[0])) is None):
            return [Out('ret', app('call:' + info.method, *[I_.content(st, a) for a in args]), st)]
        return super().on_call(I_, fr, st, info, args, site)


DATA = b'a/\x00:'
TEXT_OF = b'a\\/\\0\\:'


def enc_expect(t, ignore, st):
    chunks, cur = [], []
    for x in t:
        if x == FS:
            chunks.append(cur)
            cur = []
        else:
            cur.append(x)
    chunks.append(cur)
    if not t:
        chunks = []
    for c in chunks:
        if not c:
            return ('Ok', bseq(TEXT_OF))
        if c == [CO]:
            ident, args = EMPTY, EMPTY
        elif c[0][0] == 'B' and (len(c) == 1 or c[1] == CO):
            ident, args = c[0][1], abe_term(c[2:])
        else:
            return ('Err', 'OptionError')
        k = call('try_encode', SC, ident, args, bseq(DATA))
        v = variant(st, k)
        if v is None:
            return ('undecided', show(k))
        if v == 'Value':
            return ('Ok', app('fld', k, 'Value', 0))
        if v == 'Err' and not ignore:
            return ('Err', 'ScopeEncode')
    return ('Err', 'NoneFound')


@rule('C45', level='proof', rule='abstract interpretation of encode_abe on symbolic option lists with uninterpreted encoders; result and every encoder call compared with the documented selection')
def c45(ctx):
    body, env = ctx.method('abe', 'eval::encode_abe')
    b = [('B', sym('b%d' % i)) for i in range(8)]
    trees = set()
    for n in range(0, 6 if ctx.thorough else 5):
        for w in itertools.product(['B', ':', '/', 'L'], repeat=n):
            if w.count('L') > 1:
                continue
            r, k = [], 0
            for x in w:
                if x == 'B':
                    r.append(b[k])
                    k += 1
                else:
                    r.append(('L', (b[7],)) if x == 'L' else ('C', x))
            trees.add(tuple(r))
    bad, n, ncalls = {}, 0, 0
    for t in sorted(trees, key=show_tree):
        for ign in (True, False):
            hk = EncHook()
            I_ = ctx.interp(hooks=[hk], table=True, part=4000, unroll_width=4000)
            outs = arms(I_.run_body(body, env, [SC, bseq(DATA), abe_term(t), B(ign)], State(), None))
            ncalls += hk.n
            for o in outs:
                n += 1
                w = enc_expect(t, ign, o.st)
                if o.kind != 'ret':
                    g = ('panic', str(o.v)[:120])
                    if w[0] == 'Ok' and w[1].op == 'fld':
                        continue            # the self-check of debug builds stops instead of returning a wrong encoding
                elif is_adt(o.v, 'Ok'):
                    x = o.v.a[2][0]
                    lit = as_lit(x) if x.op in ('seq', 'bytes') or is_bytes(x) else None
                    g = ('Ok', bseq(lit) if lit is not None else x)
                elif is_adt(o.v, 'Err') and o.v.a[2][0].op == 'adt':
                    g = ('Err', o.v.a[2][0].a[1])
                else:
                    g = ('?', show(o.v)[:100])
                if g != w:
                    bad.setdefault(ign, []).append('options %s, ignore errors %s: expected %s, the code gives %s' % (show_tree(t) or "''", ign, _sh(w), _sh(g)))
    for ign in (True, False):
        ctx.ob('encode_abe/ignore=%s' % ign, not bad.get(ign), ' | '.join(bad.get(ign, [])[:2]) or 'agrees', body.name)
    ctx.floor('option lists', len(trees), 100)
    ctx.floor('paths', n, 400)
    ctx.floor('encoder calls', ncalls, 100)
    ctx.notes.update(option_lists=len(trees), paths=n, encoder_calls=ncalls)
    # encode: text options
    body, env = ctx.method('abe', 'eval::encode')
    opt = sym('opttext')
    hk = EncHook()
    hk2 = TopHook()
    I_ = ctx.interp(hooks=[hk2, hk], table=True)
    outs = arms(I_.run_body(body, env, [SC, bseq(DATA), opt, sym('ign')], State(), None))
    bad = []
    p = app('call:parse_abe_strict_b', opt)
    for o in outs:
        d = fact(o.st, app('discr', p))
        if o.kind != 'ret' or d is None:
            bad.append('a path does not depend on how the options parse')
        elif d.a[0] == 1:
            if not (is_adt(o.v, 'Err') and is_adt(o.v.a[2][0], 'ParseError')):
                bad.append('options that do not parse give ' + show(o.v)[:100])
        elif o.v is not app('call:encode_abe', SC, bseq(DATA), app('fld', p, 'Ok', 0), sym('ign')):
            bad.append('parsed options give ' + show(o.v)[:160])
    ctx.ob('encode', len(outs) >= 2 and not bad, '; '.join(bad[:2]) or '%d paths' % len(outs), body.name)


class TopHook:
    def on_call(self, I_, fr, st, info, args, site):
        if info.method == 'encode_abe' and info.trait is None:
            return [Out('ret', app('call:encode_abe', *[I_.content(st, a) for a in args]), st)]
