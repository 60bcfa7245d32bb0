"""The built-in abe functions: C07 (never panic), C08 (padding and cutting), C09 (integers), C44 (base-N),
C46 (slices and arguments), C47 (encode/logic functions and macros)."""
from check import rule, Missing
from dom import *
from interp import Out, Frame
from rules.trans import *
from rules.util import *
from rules.abe_eval import ScopeHook, EncHook, arms, AR, abe_term, abl_term, SC, CO, FS
import itertools

SCOPES = ('scope::bytes::BytesFE', 'scope::uint::UIntFE', 'scope::base::BaseNScope', "scope::argv::ArgV<'o>", 'scope::encode::Encode',
          'scope::logic::LogicOps', 'scope::comment::Comment', 'scope::help::Help')


class Fn:
    pass


class OpaqueHook(ScopeHook):
    """evaluation, parsing and encoding are other properties' business: uninterpreted here"""
    names = ('parse_abe_strict_b', 'parse_abe_b', 'eval', '_eval', 'encode', 'encode_abe', 'print_abe')

    def on_call(self, I_, fr, st, info, args, site):
        if info.trait is None and info.method in self.names:
            self.n += 1
            return [Out('ret', app('call:' + info.method, *[I_.content(st, a) for a in args]), st)]
        tr = info.trait.n if info.trait is not None else info.self_ty.n if info.self_ty is not None else ''
        if tr == 'Scope' and info.method == 'describe':
            return [Out('ret', UNIT, st)]
        return ScopeHook.on_call(self, I_, fr, st, info, args, site)


def lists(ctx, ty, which='list_funcs'):
    """the built-in functions (macros) of a scope as its list builds them"""
    r = ctx.P.resolve('abe', '<%s as eval::EvalScopeImpl>::%s' % (ty, which))
    if r is None:
        raise Missing('abe: %s of %s' % (which, ty))
    I_ = ctx.interp()
    st = State()
    outs = arms(I_.run_body(r[0], r[1], [sym('self')], st, None))
    if len(outs) != 1 or outs[0].kind != 'ret':
        raise Missing('abe: %s of %s does not return one list' % (which, ty))
    st = outs[0].st
    es = elems(I_.content(st, outs[0].v))
    if es is None:
        raise Missing('abe: %s of %s is not a literal list' % (which, ty))
    out = {}
    nm = 'ScopeFunc' if which == 'list_funcs' else 'ScopeMacro'
    f, g = ctx.P.fields[nm], ctx.P.fields[nm + 'Info']
    for e in es:
        e = I_.deref(st, e)
        x = Fn()
        x.body, x.env = r
        x.apply = e.a[2][f.index('apply')]
        info = e.a[2][f.index('info')]
        i = as_lit(info.a[2][g.index('id')])
        if i is None:
            raise Missing('abe: %s of %s: a name is not a literal' % (which, ty))
        x.id = i.decode()
        x.to_abe = e.a[2][f.index('to_abe')] if 'to_abe' in f else None
        x.lo = x.hi = None
        if 'argc' in g:
            ar = info.a[2][g.index('argc')]
            x.lo, x.hi = ar.a[2][0].a[0], ar.a[2][1].a[0]
            x.init = info.a[2][g.index('init_eq')]
            x.enc = info.a[2][g.index('to_abe')]
        x.where = '%s [%s]' % (r[0].name, x.id)
        if x.id in out:
            continue        # the first of two equal names wins (C05)
        out[x.id] = x
    return out


def need(ctx, fs, *ids):
    for i in ids:
        if i not in fs:
            raise Missing('abe: built-in function [%s]' % i)


def call(ctx, f, *args, hooks=None, what='apply', st=None, **kw):
    """live outcomes of a built-in function's body on the given arguments"""
    I_ = ctx.interp(hooks=hooks if hooks is not None else [OpaqueHook()], **kw)
    outs = arms(I_.call_value(Frame(f.body, f.env, 0, '', None), st or State(), getattr(f, what), list(args), None))
    if any(o.kind == 'ret' and o.v.op == 'call:call_value' for o in outs):
        raise Missing('abe: the code behind [%s]' % f.id)
    return I_, outs


def apply(ctx, f, xs, self_v=None, init=None, **kw):
    return call(ctx, f, self_v or sym('self'), eseq(xs), init or sym('init'), SC, **kw)


def res(o):
    """('panic', text) | ('Value', term) | ('Err',) | ('NoValue',) | ('?', text) of an ApplyResult/Result outcome"""
    if o.kind != 'ret':
        return ('panic', str(o.v[0] if isinstance(o.v, tuple) else o.v)[:200])
    v = o.v
    for k, n in (('Value', 'Value'), ('Ok', 'Value')):
        if is_adt(v, k):
            return (n, v.a[2][0])
    if is_adt(v, 'Err'):
        return ('Err',)
    if is_adt(v, 'NoValue'):
        return ('NoValue',)
    return ('?', show(v)[:160])


def same_bytes(v, want, I_=None, st=None):
    """v is the sequence of the byte terms in want"""
    if I_ is not None:
        v = I_.content(st, v)
    e = elems(v)
    if e is None and v.op in ('to_be', 'to_le'):
        return False
    return e is not None and len(e) == len(want) and all(x is y or x.op == 'i' and y.op == 'i' and x.a[0] == y.a[0] for x, y in zip(e, want))


def U(b):
    return [I(x, 'u8') for x in b]


def lit(b):
    return bseq(b)


def panics(outs):
    return ['%s in %s' % (o.v[0], (o.v[1][0] if isinstance(o.v, tuple) and len(o.v) > 1 and o.v[1] else '?')) if isinstance(o.v, tuple) else str(o.v)
            for o in outs if o.kind == 'panic']


# ---------------------------------------------------------------------------------------------- C07
@rule('C07', level='proof', rule='abstract interpretation of every entry of every built-in function table, each allowed argument count, arguments of any content and length: no path reaches a panic')
def c07(ctx):
    n = cases = 0
    for ty in SCOPES:
        short = ty.split('::')[1]
        fs = lists(ctx, ty)
        for f in fs.values():
            n += 1
            top = f.hi if ctx.thorough else min(f.hi, f.lo + 4)
            sizes = sorted(set(list(range(f.lo, top + 1)) + [f.hi]))
            for k in sizes:
                I_, outs = apply(ctx, f, [sym('x%d' % i) for i in range(k)])
                bad = panics(outs)
                cases += len(outs)
                ctx.ob('%s/%s/%d' % (short, f.id, k), outs and not bad, '; '.join(bad[:2]) or '%d paths' % len(outs), f.where)
            if is_int(f.enc, 1):
                for k in (0, 1, 2):
                    I_, outs = call(ctx, f, sym('self'), sym('b'), eseq([sym('o%d' % i) for i in range(k)]), what='to_abe', hooks=[EncHook()])
                    bad = panics(outs)
                    cases += len(outs)
                    ctx.ob('%s/%s/encode%d' % (short, f.id, k), outs and not bad, '; '.join(bad[:2]) or '%d paths' % len(outs), f.where)
    m = 0
    for ty in ('scope::encode::Encode', 'scope::logic::LogicOps'):
        for f in lists(ctx, ty, 'list_macros').values():
            m += 1
            I_, outs = call(ctx, f, sym('self'), sym('abe'), SC)
            bad = panics(outs)
            cases += len(outs)
            ctx.ob('%s/macro %s' % (ty.split('::')[1], f.id), outs and not bad, '; '.join(bad[:2]) or '%d paths' % len(outs), f.where)
    ctx.floor('functions', n, 50)
    ctx.floor('macros', m, 4)
    ctx.notes['paths'] = cases


def is_int(t, v):
    return t is not None and t.op == 'i' and t.a[0] == v


# ---------------------------------------------------------------------------------------------- C08
BY = 'scope::bytes::BytesFE'
BADW = (b'x', b'-1', b'1 ', b'99999999999999999999')


def pad_oracle(f, n, w, p):
    """('v', [item]) with items ints (positions of x0) or ('b', byte); ('e',); or a set of allowed results"""
    left = f in ('a', 'f', 'lpad', '~lpad', 'lfixed')
    fixed = 'fixed' in f
    deflt = 255 if f == 'f' else 0
    if w is None or w == b'':
        N = 16
    elif w in BADW:
        return [('e',)]
    else:
        N = int(w)
    xs = list(range(n))
    if fixed and n > N:
        xs = xs[:N] if left else xs[n - N:]
    if len(xs) > N:
        return [('v', xs)] if f[0] == '~' else [('e',)]
    if p is not None and len(p) != 1:
        return [('e',)] if len(xs) < N else [('e',), ('v', xs)]
    if N > 1 << 40:
        return [('e',)]
    fill = [('b', p[0] if p is not None else deflt)] * (N - len(xs))
    return [('v', fill + xs if left else xs + fill)]


def cut_oracle(f, n, w):
    left, lax = 'lcut' in f, f[0] == '~'
    if w is None:
        N = 16
    elif w in BADW:
        return [('e',)]
    else:
        N = int(w)
    xs = list(range(n))
    if N > n:
        return [('v', xs)] if lax else [('e',)]
    return [('v', xs[:N] if left else xs[n - N:])]


def matches(o, I_, xs, allowed):
    """the outcome is one of the allowed results over the argument bytes xs"""
    r = res(o)
    for a in allowed:
        if a[0] == 'e' and r[0] == 'Err':
            return True
        if a[0] == 'n' and r[0] == 'NoValue':
            return True
        if a[0] == 'v' and r[0] == 'Value' and same_bytes(r[1], [I(i[1], 'u8') if isinstance(i, tuple) else xs[i] for i in a[1]], I_, o.st):
            return True
    return False


def want_str(allowed):
    return ' or '.join('error' if a[0] == 'e' else 'nothing' if a[0] == 'n' else '[%s]' % ' '.join('x%d' % i if not isinstance(i, tuple) else '%02x' % i[1] for i in a[1][:24]) for a in allowed)


def got_str(o, I_):
    r = res(o)
    return r[0] if len(r) == 1 else '%s %s' % (r[0], show(I_.content(o.st, r[1]))[:200] if isinstance(r[1], T) else r[1])


def grid(ctx, f, key, cases, oracle, self_v=None, hooks=None):
    """cases: [(label, n, [literal arguments])]; one obligation for the whole grid of one function"""
    bad, k, sure = [], 0, False
    for label, n, extra in cases:
        xs = u8syms('q', n)
        I_, outs = apply(ctx, f, [eseq(xs)] + [lit(e) for e in extra], self_v, hooks=hooks)
        allowed = oracle(n, *extra)
        k += 1
        if not outs:
            bad.append('%s: no outcome' % label)
        for o in outs:
            if not matches(o, I_, xs, allowed):
                bad.append('%s: want %s got %s' % (label, want_str(allowed), got_str(o, I_)))
                sure = sure or ctx.sure(I_)
    ctx.ob(key, not bad, '; '.join(bad[:2]) or '%d cases' % k, f.where, sure)
    return k


@rule('C08', level='proof', rule='outcome tables of every padding and cutting function over argument lengths, widths and pad bytes with symbolic data; length and placement of the result for data and widths of any size')
def c08(ctx):
    fs = lists(ctx, BY)
    pads = ('a', 'f', 'lpad', 'rpad', '~lpad', '~rpad', 'lfixed', 'rfixed')
    cuts = ('lcut', 'rcut', '~lcut', '~rcut')
    need(ctx, fs, *pads + cuts)
    ns = (0, 1, 2, 4, 15, 16, 17) if not ctx.thorough else range(0, 20)
    ws = [None, b'', b'0', b'1', b'2', b'3', b'4', b'6', b'16', b'17', b'20', b'18446744073709551615'] + list(BADW)
    total = 0
    for id in pads:
        cases = []
        for n in ns:
            for w in ws:
                for p in (None, b'', b'z') if not ctx.thorough else (None, b'', b'\0', b'z', b'zz'):
                    if p is not None and (w is None or not ctx.thorough and w in (b'1', b'3', b'17', b'20')):
                        continue
                    ex = [] if w is None else [w] if p is None else [w, p]
                    cases.append(('%s of %d bytes, width %s, pad %s' % (id, n, w, p), n, ex))
        total += grid(ctx, fs[id], 'pad/' + id, cases, lambda n, w=None, p=None: pad_oracle(id, n, w, p))
    for id in cuts:
        cases = [('%s of %d bytes, width %s' % (id, n, w), n, [] if w is None else [w]) for n in ns for w in ws if w != b'']
        total += grid(ctx, fs[id], 'cut/' + id, cases, lambda n, w=None: cut_oracle(id, n, w))
    for id in pads + cuts:
        sym_sizes(ctx, fs[id], id, total)
    a_encoder(ctx, fs['a'])
    fits(ctx)
    ctx.floor('cases', total, 1000)


def pieces(v):
    """a sequence term as a list of pieces: ('x', source, lo, hi|None) part of an argument, ('fill', byte, length); None when the
    term is built from anything else"""
    ps = v.a if v.op == 'seq' else (('s', v),)
    out = []
    for k, p in ps:
        if k == 'b':
            if len(set(p)) != 1:
                return None
            out.append(('fill', I(p[0], 'u8'), I(len(p))))
            continue
        if k == 'e':
            out.append(('fill', p, I(1)))
            continue
        lo, hi, t = I(0), None, p
        if t.op == 'sl':
            lo, hi, t = t.a[1], t.a[2], t.a[0]
        if t.op == 'sym':
            out.append(('x', t, lo, hi))
            continue
        if t.op == 'rep':
            out.append(('fill', t.a[0], length(p)))
            continue
        es = elems(t)
        if es is None:
            return None
        if not es:
            continue
        if any(e is not es[0] for e in es):
            return None
        out.append(('fill', es[0], length(p)))
    return out


def same_len(st, a, b):
    d = st.norm(sub(a, b))
    return a is b or d.op == 'i' and d.a[0] == 0 or st.decide(eq(a, b)) is True \
        or st.decide(lt(a, b)) is False and st.decide(lt(b, a)) is False


def placed(st, v, x, fill, W, side, how):
    """v is: how 'pad': all of x at its side, the rest fill, W long; 'cut': the first/last W of x; 'all': x itself.
    -> True / False / None (term not understood)"""
    ps = pieces(v)
    if ps is None:
        return None
    xs = [p for p in ps if p[0] == 'x']
    if how == 'pad':
        if any(p[0] == 'fill' and p[1] is not fill and not same_len(st, p[2], I(0)) for p in ps):
            return False
        if not xs:
            return same_len(st, length(x), I(0)) and same_len(st, length(v), W)
        k = (len(ps) - 1 if side == 'l' else 0)
        p = ps[k]
        return len(xs) == 1 and p[0] == 'x' and p[1] is x and same_len(st, p[2], I(0)) and (p[3] is None or same_len(st, p[3], length(x))) and same_len(st, length(v), W)
    if how == 'all':
        return len(ps) == 1 and ps[0][0] == 'x' and ps[0][1] is x and same_len(st, length(v), length(x)) or not ps and same_len(st, length(x), I(0))
    if not xs:
        return not ps and same_len(st, W, I(0))
    if len(ps) != 1 or xs[0][1] is not x or not same_len(st, length(v), W):
        return False
    return same_len(st, xs[0][2], I(0)) if side == 'l' else same_len(st, xs[0][2], sub(length(x), W))


def parsed(st, x, ty):
    """('ok', term) | 'err' | None: what the path knows about parsing text x as ty"""
    if fact(st, app('is_utf8', x)) is FALSE:
        return 'err'
    for t, f in st.facts.items():
        if t.op == 'discr' and t.a[0].op == 'parse' and t.a[0].a[0] is x and t.a[0].a[1] == ty and f[0] == '=':
            return ('ok', app('fld', t.a[0], 'Ok', 0)) if f[1].a[0] == 0 else 'err'
    return None


def sym_sizes(ctx, f, id, total):
    """padding or cutting of data of any length to any width"""
    left = id.lstrip('~')[0] in 'afl'
    lax, fixed, cutf = id[0] == '~', 'fixed' in id, 'cut' in id
    bad, und, n = [], 0, 0
    for k in (1, 2, 3):
        if k > f.hi:
            continue
        xs = [sym('x%d' % i) for i in range(k)]
        I_, outs = apply(ctx, f, xs)
        if not any(res(o)[0] == 'Value' for o in outs):
            bad.append('%d arguments: never a value' % k)
        for o in outs:
            st, r, x = o.st, res(o), xs[0]
            W, pe = I(16), False
            if k > 1 and not (not cutf and same_len(st, length(xs[1]), I(0))):
                p = parsed(st, xs[1], 'usize')
                if isinstance(p, tuple):
                    W = st.norm(p[1])
                elif p == 'err':
                    pe = True
                else:
                    und += 1
                    continue
            n += 1
            longer = st.decide(app('Lt', W, length(x)))
            shorter = st.decide(app('Lt', length(x), W))
            if pe:
                good = r[0] == 'Err'
            elif r[0] == 'Err':
                bp = k == 3 and not same_len(st, length(xs[2]), I(1)) and st.decide(eq(length(xs[2]), I(1))) is False
                al = any(t.op == 'alloc_ok' and f_ == ('=', FALSE) for t, f_ in st.facts.items())
                good = bp and not cutf or al or (longer is True and not fixed and not cutf and not lax) or (cutf and shorter is True and not lax)
            elif r[0] == 'Value':
                v = I_.content(st, r[1])
                fill = I(255 if id == 'f' else 0, 'u8') if k < 3 else index(xs[2], I(0))
                side = 'l' if left else 'r'
                if cutf:
                    good = placed(st, v, x, None, W, side, 'cut') if shorter is not True else lax and placed(st, v, x, None, W, side, 'all')
                elif longer is True:
                    good = placed(st, v, x, fill, W, side, 'cut') if fixed else lax and placed(st, v, x, fill, W, side, 'all')
                elif longer is False:
                    good = placed(st, v, x, fill, W, side, 'pad')
                else:
                    good = None
                if good is None:
                    und += 1
                    continue
            else:
                good = False
            if not good:
                bad.append('%d arguments: %s when %s' % (k, got_str(o, I_), '; '.join('%s = %s' % (show(t)[:60], show(f_[1])) for t, f_ in st.facts.items() if f_[0] == '=')[:300]))
    ctx.notes['undetermined paths: ' + id] = und
    ctx.ob('any length/' + id, not bad, '; '.join(bad[:2]) or '%d paths, %d not understood' % (n, und), f.where)


def text_parts(v):
    """a text term as [bytes | term]"""
    return [p for k, p in (v.a if v.op == 'seq' else (('s', v),))]


def known_zero(st, q):
    return mask_of(st, q) == 1 or q.op == 'i' and q.a[0] == 0


def a_encoder(ctx, f):
    bad, n = [], 0
    for k in range(0, 19):
        xs = u8syms('q', k)
        I_, outs = call(ctx, f, sym('self'), eseq(xs), eseq([]), what='to_abe', hooks=[EncHook()])
        if not outs:
            bad.append('%d bytes: no outcome' % k)
        for o in outs:
            n += 1
            r = res(o)
            ps = text_parts(I_.content(o.st, r[1])) if r[0] == 'Value' and isinstance(r[1], T) else None
            good = False
            if ps is not None:
                j = b''.join(p if isinstance(p, bytes) else b'\1' for p in ps)
                ts = [p for p in ps if not isinstance(p, bytes)]
                ok_len = {b'[a:' + c + e for c in ([b'\1'] if ts else [b'']) for e in ([b':%d]' % k] + ([b']'] if k == 16 else []))}
                if j in ok_len and len(ts) < 2:
                    es = []
                    if ts:
                        es = elems(ts[0].a[0]) if ts[0].op == 'call:as_abtxt' else None
                    good = es is not None and len(es) <= k and all(a is b for a, b in zip(es[::-1], xs[::-1])) and all(known_zero(o.st, q) for q in xs[:k - len(es)])
            if not good:
                bad.append('%d bytes: %s' % (k, got_str(o, I_)))
    ctx.ob('encode/a', not bad, '; '.join(bad[:2]) or '%d paths' % n, f.where)


def run_gen(ctx, b, consts, args, st=None):
    """a const-generic function: consts are bound to its declared parameters in order"""
    I_ = ctx.interp(table=True, unroll_width=5000, part=5000)
    names = [g[0] if isinstance(g, tuple) else g for g in ctx.P.fn_generics(b) or []]
    if len(names) < len(consts):
        raise Missing('%s: %d const parameters' % (b.name, len(consts)))
    return I_, arms(I_.run_body(b, dict(zip(names, consts)), args, st or State(), None))


def fits(ctx):
    from program import Ty
    Ls = (0, 1, 4, 8, 16, 32) if not ctx.thorough else (0, 1, 2, 3, 4, 8, 16, 32, 64)
    for name in ('fit', 'fit_front', 'fit_back'):
        b = ctx.fn('abe', name)
        bad, n = [], 0
        for L in Ls:
            for fill in ((0, 255) if name == 'fit_back' else (0,)):
                for k in sorted({0, 1, 2, max(L - 1, 0), L, L + 1, L + 9}):
                    xs = u8syms('q', k)
                    cs = ([Ty('%d_u8' % fill)] if name == 'fit_back' else []) + [Ty('%d_usize' % L)]
                    I_, outs = run_gen(ctx, b, cs, [eseq(xs)])
                    pad = [I(fill, 'u8')] * (L - k)
                    want = None if k > L or name == 'fit' and k != L else xs + pad if name != 'fit_back' else pad + xs
                    n += 1
                    if len(outs) < 1:
                        bad.append('%d into %d: no outcome' % (k, L))
                    for o in outs:
                        r = res(o)
                        if not (r[0] == 'Err' if want is None else r[0] == 'Value' and same_bytes(r[1], want, I_, o.st)):
                            bad.append('%d bytes into [u8; %d]: %s' % (k, L, got_str(o, I_)))
        ctx.ob('fit/' + name, not bad, '; '.join(bad[:2]) or '%d cases' % n, b.name)
    for name, front, byte in (('cut_prefix_nulls', True, 0), ('cut_ending_nulls2', False, 0), ('cut_prefixeq', True, 0), ('cut_prefixeq', True, 255)):
        b = ctx.fn('abe', name)
        bad, n = [], 0
        for k in range(0, 18):
            xs = u8syms('q', k)
            I_, outs = run_gen(ctx, b, [Ty('%d_u8' % byte)] if name == 'cut_prefixeq' else [], [eseq(xs)])
            left = 0
            for o in outs:
                n += 1
                es = elems(I_.content(o.st, o.v)) if o.kind == 'ret' else None
                m = len(es) if es is not None else -1
                good = 0 <= m <= k
                if good:
                    kept, cutp, edge = (xs[k - m:], xs[:k - m], xs[k - m:][:1]) if front else (xs[:m], xs[m:], xs[:m][-1:])
                    good = len(es) == len(kept) and all(a is b_ for a, b_ in zip(es, kept)) and all(mask_of(o.st, q) == 1 << byte for q in cutp) \
                        and not any((mask_of(o.st, q) >> byte) & 1 for q in edge)
                    left |= 1 << m
                if not good:
                    bad.append('%d bytes: %s' % (k, show(o.v)[:100] if o.kind == 'ret' else o.v))
            if left != (1 << (k + 1)) - 1:
                bad.append('%d bytes: not every amount of leading/trailing bytes is handled' % k)
        ctx.ob('cut/%s %d' % (name, byte), not bad, '; '.join(bad[:2]) or '%d paths' % n, b.name)


def option_of_any_value(ctx, f, id, k):
    """the encoder with one or two length options of any text: the bytes are written exactly if an option read as a number is their count"""
    x = sym('x') if k is None else eseq(u8syms('q', k))
    n = I(k) if k is not None else length(x)
    bad, und, cnt = [], 0, 0
    for os in ((sym('o0'),), (sym('o0'), sym('o1'))):
        st = State()
        if k:
            st.facts[elems(x)[0]] = ('dom', FULL & ~1)
        I_, outs = call(ctx, f, sym('self'), x, abe_term([('B', o) for o in os]), what='to_abe', hooks=[EncHook()], st=st)
        for o in outs or [None]:
            cnt += 1
            r = res(o) if o else ('none',)
            kind = {'NoValue': 'none', 'Err': 'err', 'Value': 'text'}.get(r[0], r[0])
            want = 'none'
            for q in os:
                p = num_term(o.st, q) if o else None
                if p is None:
                    want = None
                elif p == 'err':
                    want = 'err'
                else:
                    e = o.st.decide(eq(p[0], n))
                    e = e if e is not None else o.st.decide(eq(n, p[0]))
                    if e is None:
                        want = None
                    elif e:
                        want = 'text'
                    else:
                        continue
                break
            if want is None:
                und += 1
            elif kind != want and not (kind == 'err' and want == 'text'):
                bad.append('an option %s: %s' % ({'text': 'that is the length', 'none': 'that is not the length', 'err': 'that is no number'}[want], got_str(o, I_)))
    if und:
        # a path that says nothing about the option: it must not be told apart by the option at all
        ctx.notes.setdefault('inductive_part_not_applied', []).append('encode/%s any option (%d of %d paths)' % (id, und, cnt))
        I_ = None
    return bad, cnt


# ---------------------------------------------------------------------------------------------- C09
UI = 'scope::uint::UIntFE'
UTYS = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16}
NUMS = [str(n).encode() for k in (0, 8, 16, 32, 64, 128) for n in ((1 << k) - 1, 1 << k, (1 << k) + 1)] + [b'300', b'65280', b'16909060'] + \
    [b'', b'+', b'+7', b'007', b'-1', b'-0', b'a', b'1a', b' 1', b'1 ', b'0x1', b'1_0', b'\xff', b'1\xff']
TRI = {True: 0, None: 1, False: 2}


def number(t):
    return int(t) if t.isascii() and t.decode().lstrip('+').isdigit() and t.decode().count('+') <= t.startswith(b'+') else None


def judge(ctx, key, where, verdicts, fallback, n_min=1):
    """verdicts: [(True | False | None, text)] of the symbolic paths; paths whose result is not a term the rule understands (None) are
    replaced by a table of literal inputs"""
    bad = [t for v, t in verdicts if v is False]
    und = [t for v, t in verdicts if v is None]
    k = 0
    if und or len(verdicts) < n_min:
        bad2, k = fallback()
        bad = bad2 + bad
        ctx.notes.setdefault('decided by literal inputs', []).append(key)
    ctx.ob(key, not bad, '; '.join(bad[:2]) or ('%d paths' % len(verdicts) + (', %d literal cases' % k if k else '')), where)
    return len(verdicts)


def lit_cases(ctx, f, cases, what='apply', **kw):
    """cases: [(literal arguments, allowed)] with allowed = list of 'Err' | 'NoValue' | bytes"""
    def go():
        bad = []
        for args, allowed in cases:
            if what == 'apply':
                I_, outs = apply(ctx, f, [lit(a) for a in args], **kw)
            else:
                I_, outs = call(ctx, f, sym('self'), lit(args[0]), eseq(list(args[1:])), what=what, hooks=[EncHook()], **kw)
            for o in outs:
                r = res(o)
                g = r[0]
                if g == 'Value':
                    g = as_lit(I_.content(o.st, r[1])) if isinstance(r[1], T) else None
                if g is None and any(x.op == 'phi' for x in subterms(I_.content(o.st, r[1]))):
                    # a summarised loop: the analysis cannot say which bytes these are
                    ctx.notes.setdefault('literal inputs not understood', []).append(' '.join(repr(a) for a in args)[:80])
                    continue
                if g not in allowed:
                    bad.append('%s -> %s, want %s' % (' '.join(repr(a) for a in args), got_str(o, I_), ' or '.join(map(repr, allowed))))
        return bad, len(cases)
    return go


def num_term(st, x):
    """the number the text x is known to denote on this path: (payload term, type) | 'err' | None"""
    if fact(st, app('is_utf8', x)) is FALSE:
        return 'err'
    for t, f_ in st.facts.items():
        if t.op == 'discr' and t.a[0].op == 'parse' and t.a[0].a[0] is x and f_[0] == '=':
            return (app('fld', t.a[0], 'Ok', 0), t.a[0].a[1]) if f_[1].a[0] == 0 else 'err'
    return None


def fits_ty(st, p, pty, ty):
    """the number p (of unsigned type pty) known to fit / not to fit ty"""
    if UTYS[pty] <= UTYS[ty]:
        return True
    d = st.decide(app('ovf', p, ty))
    return None if d is None else not d


def parse_verdict(o, I_, x, ty, le, trim):
    st, r = o.st, res(o)
    if r[0] == 'panic':
        return False, r[1]
    p = num_term(st, x)
    d = '%s with %s' % (got_str(o, I_), '; '.join('%s = %s' % (show(t)[:50], show(f_[1])) for t, f_ in st.facts.items() if f_[0] == '=')[:200])
    if p is None or p != 'err' and p[1] not in UTYS:
        return None, d
    if p == 'err':
        return r[0] == 'Err', d
    fit = fits_ty(st, p[0], p[1], ty)
    if fit is None:
        return None, d
    if not fit or r[0] != 'Value':
        return (not fit) and r[0] == 'Err', d
    v = I_.content(st, r[1])
    P_ = st.norm(p[0])
    full = eseq([P_]) if ty == 'u8' and P_.op != 'i' else app('to_le' if le else 'to_be', P_, ty) if P_.op != 'i' else lit(P_.a[0].to_bytes(UTYS[ty], 'little' if le else 'big'))
    if trim:
        es = elems_n(v)
        n = UTYS[ty]
        if es is None or len(es) > n:
            return None, d
        w = [index(full, I(i)) for i in range(n)]
        if any(e is not b for e, b in zip(es, w)):
            return (False if all(e.op in ('i', 'idx') for e in es) else None), d
        if any(not known_zero(st, q) for q in w[len(es):]) or es and mask_of(st, es[-1]) & 1 and not (es[-1].op == 'i' and es[-1].a[0]):
            return False, d
        return True, d
    if v is full or same_terms(v, full):
        return True, d
    es = elems(v)
    if v.op in ('to_be', 'to_le', 'to_ne') or es is not None and all(e.op == 'i' or e.op == 'idx' and e.a[0].op in ('to_be', 'to_le') for e in es):
        return False, d
    return None, d


def elems_n(v):
    es = elems(v)
    if es is None and length(v).op == 'i':
        es = [index(v, I(i)) for i in range(length(v).a[0])]
    return es


def same_terms(a, b):
    x, y = elems_n(a), elems_n(b)
    return x is not None and y is not None and len(x) == len(y) and all(p is q for p, q in zip(x, y))


def chain(xs, n, op):
    """reference carry chain over the byte lists xs; -> [(overflow conditions in order)], result bytes] as terms"""
    r = list(xs[0])
    conds = []
    for b in xs[1:]:
        c = I(0, 'u8')
        out = [None] * n
        cb = None
        for i in range(n - 1, -1, -1):
            t = add(r[i], b[i]) if op == '+' else sub(r[i], b[i])
            if cb is not None:
                t = add(t, app('cast', cb, 'u8')) if op == '+' else sub(t, app('cast', cb, 'u8'))
            out[i] = app('wrap', t, 'u8')
            cb = app('ovf', t, 'u8')
        conds.append(cb)
        r = out
    return conds, r


def arith_verdicts(ctx, f, op, k, n):
    xs = [u8syms('%s%d_' % (op == '+' and 'p' or 'm', i), n) for i in range(k)]
    I_, outs = apply(ctx, f, [eseq(x) for x in xs], table=True, unroll_width=20000, part=40000)
    conds, r = chain(xs, n, op)
    sat = [I(255 if op == '+' else 0, 'u8')] * n
    res_ = []
    for o in outs:
        q = res(o)
        d = '%d operands of %d bytes: %s' % (k, n, got_str(o, I_)[:300])
        if q[0] != 'Value':
            res_.append((False, d))
            continue
        v = I_.content(o.st, q[1])
        if n == 0:
            res_.append((same_bytes(v, []), d))
            continue
        cf = [o.st.decide(c) if c is not None else False for c in conds]
        if any(c is True for c in cf):
            i = cf.index(True)
            good = same_bytes(v, sat) if all(c is False for c in cf[:i]) else None
        elif all(c is False for c in cf):
            good = same_bytes(v, r)
        else:
            good = None
        res_.append((True if good else None, d))
    return res_


def arith_lits(op, k, n):
    vals = [0, 1, 2, 127, 128, 254, 255] if n == 1 else [0, 1, 0xff, 0x100, 0xfeff, 0xff00, 0xffff] if n == 2 else [0, 1, (1 << 8 * n) - 1, (1 << 8 * n - 8), (1 << 8 * n - 8) - 1]
    out = []
    for w in itertools.product(vals, repeat=k):
        t = sum(w) if op == '+' else w[0] - sum(w[1:])
        t = min(max(t, 0), (1 << 8 * n) - 1)
        out.append(([x.to_bytes(n, 'big') for x in w], [t.to_bytes(n, 'big')]))
    return out


@rule('C09', level='proof', rule='result terms of every integer function on symbolic texts and bytes: parse, width, byte order, carry chain and saturation; encoders for every byte length')
def c09(ctx):
    fs = lists(ctx, UI)
    need(ctx, fs, '+', '-', '?u', '?lu', 'lu', *(list(UTYS) + ['l' + u for u in UTYS]))
    n = 0
    for id, ty, le, trim in [(u, u, False, False) for u in UTYS] + [('l' + u, u, True, False) for u in UTYS] + [('lu', 'u128', True, True)]:
        f, x = fs[id], sym('x0')
        I_, outs = apply(ctx, f, [x], table=True, unroll_width=2000, part=4000)
        vs = [parse_verdict(o, I_, x, ty, le, trim) for o in outs]
        w = UTYS[ty]

        def expect(t):
            m = number(t)
            if m is None or m >= 1 << 8 * w:
                return ['Err']
            b = m.to_bytes(w, 'little' if le else 'big')
            return [b.rstrip(b'\0') if trim else b]
        n += judge(ctx, 'parse/' + id, f.where, vs, lit_cases(ctx, f, [([t], expect(t)) for t in NUMS]), 3)
        if not any(v is True and d.startswith('Value') for v, d in vs) and not any(v is None for v, d in vs):
            ctx.ob('parse/%s value' % id, False, 'no path returns a value', f.where)
    # printing
    for id, le in (('?u', False), ('?lu', True)):
        f = fs[id]
        vs = []
        for k in range(0, 20):
            xs = u8syms('q', k)
            I_, outs = apply(ctx, f, [eseq(xs)])
            z = [I(0, 'u8')] * (16 - k)
            want = (xs + z if le else z + xs) if k <= 16 else None
            for o in outs:
                r = res(o)
                d = '%d bytes: %s' % (k, got_str(o, I_))
                if want is None:
                    vs.append((r[0] == 'Err', d))
                    continue
                if r[0] != 'Value':
                    vs.append((False, d))
                    continue
                v = I_.content(o.st, r[1])
                vs.append((dec_of(v, want, le), d))
        lits = [([bytes(b)], [str(int.from_bytes(bytes(b), 'little' if le else 'big')).encode()] if len(b) <= 16 else ['Err'])
                for k in range(0, 19) for b in ([0] * k, [255] * k, list(range(1, k + 1)), [0] * (k // 2) + [7] * (k - k // 2), [200] + [0] * max(k - 1, 0))]
        n += judge(ctx, 'print/' + id, f.where, vs, lit_cases(ctx, f, lits), 17)
    # encoders
    for id, w in UTYS.items():
        f = fs[id]
        ctx.ob('encode/%s enabled' % id, is_int(f.enc, 1), 'the table says the function has an encoder', f.where)
        vs = []
        for k in list(range(0, 19)):
            xs = u8syms('q', k)
            I_, outs = call(ctx, f, sym('self'), eseq(xs), eseq([]), what='to_abe', hooks=[EncHook()])
            for o in outs:
                r = res(o)
                d = '%d bytes: %s' % (k, got_str(o, I_))
                if k != w:
                    vs.append((r[0] == 'NoValue', d))
                    continue
                if r[0] != 'Value':
                    vs.append((False, d))
                    continue
                ps = text_parts(I_.content(o.st, r[1]))
                lits_ = b''.join(p if isinstance(p, bytes) else b'\1' for p in ps)
                ts = [p for p in ps if not isinstance(p, bytes)]
                if len(ts) == 1 and ts[0].op == 'dec':
                    g = dec_of(ts[0], xs, False)
                    vs.append((g and lits_ == b'[%s:\1]' % id.encode() if g is not None else None, d))
                else:
                    vs.append((None, d))
        lits = [([bytes(b)], [b'[%s:%d]' % (id.encode(), int.from_bytes(bytes(b), 'big'))] if len(b) == w else ['NoValue'])
                for k in sorted({0, 1, 2, 3, 4, 5, 8, 9, 15, 16, 17}) for b in ([0] * k, [255] * k, list(range(1, k + 1)))]
        n += judge(ctx, 'encode/' + id, f.where, vs, lit_cases(ctx, f, lits, what='to_abe'), 17)
    # arithmetic
    for op in '+-':
        f = fs[op]
        ctx.ob('argc/' + op, f.lo == 1 and f.hi == 16, '%s..=%s arguments' % (f.lo, f.hi), f.where)
        for k in (1, 2, 3) + ((4, 5, 8) if ctx.thorough else (4,)):
            for m in (list(range(0, 18)) + [32] if k == 2 or ctx.thorough else [0, 1, 2, 3, 8]):
                vs = arith_verdicts(ctx, f, op, k, m)
                n += judge(ctx, 'arith/%s/%dx%d' % (op, k, m), f.where, vs, lit_cases(ctx, f, arith_lits(op, k, m) if m and k <= 4 else []), 1)
        bad = []
        for ls in [p for k in (2, 3) for p in itertools.product((0, 1, 2, 3, 8), repeat=k) if len(set(p)) > 1]:
            I_, outs = apply(ctx, f, [eseq(u8syms('z%d_' % i, l)) for i, l in enumerate(ls)])
            n += len(outs)
            if not outs or any(res(o)[0] != 'Err' for o in outs):
                bad.append('operands of %s bytes: %s' % (' and '.join(map(str, ls)), got_str(outs[0], I_) if outs else 'none'))
        ctx.ob('arith/%s/lengths differ' % op, not bad, '; '.join(bad[:2]) or 'error', f.where)
    ctx.floor('paths', n, 300)


def dec_of(v, want, le):
    """v is the decimal text of the number whose bytes are want; True / False / None"""
    if v.op == 'seq' and len(v.a) == 1 and v.a[0][0] == 's':
        v = v.a[0][1]
    b = as_lit(v)
    if b is not None and not any(q.op != 'i' for q in want):
        return b == str(int.from_bytes(bytes(q.a[0] for q in want), 'little' if le else 'big')).encode()
    if v.op != 'dec':
        return None
    t = v.a[0]
    if t.op in ('from_be', 'from_le'):
        es = elems(t.a[0])
        if es is None:
            return None
        got = list(es) if t.op == 'from_be' else list(es)[::-1]
        w = list(want)[::-1] if le else list(want)
        while got and is_int(got[0], 0):
            got.pop(0)
        while w and is_int(w[0], 0):
            w.pop(0)
        return len(got) == len(w) and all(p is q for p, q in zip(got, w))
    if t.op == 'i':
        return all(q.op == 'i' for q in want) and t.a[0] == int.from_bytes(bytes(q.a[0] for q in want), 'little' if le else 'big')
    if t in U8 or t.op in ('sym', 'idx'):
        w = [q for q in (list(want)[::-1] if le else want) if not is_int(q, 0)]
        return w == [t] or w and w[-1] is t and len(w) == 1
    return None


# ---------------------------------------------------------------------------------------------- C44
BN = 'scope::base::BaseNScope'
ENG = {'b': 'URL_SAFE_NO_PAD', 'bs': 'STANDARD'}
DIG = {2: ('binary',), 8: ('octal',), 16: ('upper_hex', 'lower_hex')}


def engine(t):
    return show(t).split('::')[-1].split(' ')[-1]


def bin_verdict(o, I_, x, radix):
    st, r = o.st, res(o)
    d = '%s with %s' % (got_str(o, I_), '; '.join('%s = %s' % (show(t)[:50], show(f_[1])) for t, f_ in st.facts.items() if f_[0] == '=')[:200])
    if r[0] == 'panic':
        return False, d
    if fact(st, app('is_utf8', x)) is FALSE:
        return r[0] == 'Err', d
    for t, f_ in st.facts.items():
        if t.op == 'discr' and t.a[0].op == 'parse_radix' and t.a[0].a[0] is x and f_[0] == '=':
            if not is_int(t.a[0].a[1], radix) or t.a[0].a[2] != 'u128':
                return False, d
            if f_[1].a[0] == 1:
                return r[0] == 'Err', d
            if r[0] != 'Value':
                return False, d
            P_ = st.norm(app('fld', t.a[0], 'Ok', 0))
            v = I_.content(st, r[1])
            if is_int(P_, 0):
                return as_lit(v) == b'\0', d
            if any(x_.op.startswith('leading_zeros') or x_.op == 'fn' and 'leading_zeros' in str(x_.a) for t2 in st.facts for x_ in subterms(t2)):
                return None, d      # the length is taken from the number itself
            es = elems_n(v)
            w = [index(app('to_be', P_, 'u128'), I(i)) for i in range(16)]
            if es is None:
                return None, d
            if not es and all(known_zero(st, q) for q in w) and fact_of_ne(st, P_, 0):
                return True, d      # impossible: a nonzero number has a nonzero byte
            if len(es) > 16 or any(a is not b for a, b in zip(es[::-1], w[::-1])):
                return (False if all(e.op in ('i', 'idx') for e in es) else None), d
            k = 16 - len(es)
            return bool(es) and all(known_zero(st, q) for q in w[:k]) and not mask_of(st, es[0]) & 1, d
    return None, d


def fact_of_ne(st, t, n):
    f = st.facts.get(t)
    return st.decide(eq(t, I(n))) is False or f is not None and f[0] == 'ne' and n in f[1]


def digit_piece(p, radix, w):
    """the byte a text piece prints as exactly w digits of the radix, else None"""
    if p.op == 'fmtspec' and len(p.a) == 6 and p.a[0].op in DIG[radix] and p.a[0].a[1] == 'u8' and is_int(p.a[3], 8) and \
            p.a[4].op == 'adt' and 'Implied' in p.a[4].a[:2] and p.a[5].op == 'adt' and 'Is' in p.a[5].a[:2] and (p.a[5].a[2][0] == w or is_int(p.a[5].a[2][0], w) if isinstance(p.a[5].a[2][0], T) else p.a[5].a[2][0] == w):
        return p.a[0].a[0]
    return None


def as_opts(ls):
    return abe_term([('B', lit(o)) for o in ls])


def opt_cases(id, k):
    """(options, what the encoder may do with k bytes): 'text' | 'none' | 'err'"""
    m = str(k).encode()
    o = str(k + 1).encode()
    return [([], {'text'}), ([m], {'text'}), ([o], {'none'}), ([o, m], {'text'}), ([m, o], {'text'}), ([b'x'], {'err'}), ([b'x', m], {'err'}), ([o, b'99999999999999999999999'], {'err'}),
            ([b'0'], {'text' if k == 0 else 'none'}), ([str(k + 256).encode()], {'none'}), ([str(k + 65536).encode()], {'none'}), ([m, b'x'], {'text', 'err'})] if id != 'bs' else [([], {'text'}), ([m], {'text'})]


@rule('C44', level='proof', rule='result terms of every base-N function and encoder on symbolic bytes and texts: the same engine both ways, every byte as a fixed number of digits in order, minimal big-endian bytes back, the documented option handling')
def c44(ctx):
    fs = lists(ctx, BN)
    need(ctx, fs, 'b2', 'b8', 'b16', '?b', 'b', '?bs', 'bs')
    x = sym('x0')
    n = 0
    # base64
    for id in ('b', 'bs'):
        for who, f in (('?' + id, fs['?' + id]), ('fn', None)):
            if f is None:
                if id == 'bs':
                    continue
                b = ctx.fn('abe', 'base64')
                I_ = ctx.interp()
                outs, where = arms(I_.run_body(b, {'impl AsRef<[u8]>': parse_t('&[u8]')}, [x], State(), None)), b.name
            else:
                I_, outs = apply(ctx, f, [x])
                where = f.where
            bad = []
            for o in outs:
                v = I_.content(o.st, o.v if f is None else res(o)[1]) if o.kind == 'ret' and (f is None or res(o)[0] == 'Value') else None
                if v is None or v.op != 'b64e' or v.a[1] is not x or engine(v.a[0]) != ENG[id]:
                    bad.append(show(v)[:200] if v is not None else str(o.v)[:200])
            n += len(outs)
            ctx.ob('base64/%s %s' % (id, who), outs and not bad, '; '.join(bad[:2]) or 'encodes its argument with %s' % ENG[id], where)
        I_, outs = apply(ctx, fs[id], [x])
        bad, okc = [], 0
        for o in outs:
            r = res(o)
            for t, f_ in o.st.facts.items():
                if t.op == 'discr' and t.a[0].op == 'b64d' and f_[0] == '=':
                    d = t.a[0]
                    good = engine(d.a[0]) == ENG[id] and d.a[1] is x and (r[0] == 'Err' if f_[1].a[0] else r[0] == 'Value' and I_.content(o.st, r[1]) is app('fld', d, 'Ok', 0))
                    okc += 1
                    if not good:
                        bad.append(got_str(o, I_))
                    break
            else:
                bad.append('not decided by decoding: ' + got_str(o, I_))
        n += len(outs)
        ctx.ob('base64/decode ' + id, okc >= 2 and not bad, '; '.join(bad[:2]) or 'decodes with %s, an error otherwise' % ENG[id], fs[id].where)
        f = fs[id]
        ctx.ob('encode/%s enabled' % id, is_int(f.enc, 1), 'the table says the function has an encoder', f.where)
        bad = []
        for k in (0, 1, 2, 3, 4, 16, 32):
            xs = eseq(u8syms('q', k))
            for opts, want in opt_cases(id, k):
                I_, outs = call(ctx, f, sym('self'), xs, as_opts(opts), what='to_abe', hooks=[EncHook()])
                if not outs:
                    bad.append('no outcome')
                for o in outs:
                    n += 1
                    r = res(o)
                    kind = {'NoValue': 'none', 'Err': 'err', 'Value': 'text'}.get(r[0], r[0])
                    if kind == 'text':
                        ps = text_parts(I_.content(o.st, r[1]))
                        kind = 'text' if len(ps) == 3 and ps[0] == b'[%s:' % id.encode() and ps[2] == b']' and b64_piece(ps[1], xs, id) else got_str(o, I_)
                    if kind not in want:
                        bad.append('%d bytes, options %s: %s' % (k, opts, kind))
        if id == 'b':
            b2, k = option_of_any_value(ctx, f, id, None)
            bad += b2
            n += k
        ctx.ob('encode/' + id, not bad, '; '.join(bad[:2]) or 'the text is [%s:...] of exactly the bytes' % id, f.where)
    # digits
    for id, radix in (('b2', 2), ('b8', 8), ('b16', 16)):
        f = fs[id]
        I_, outs = apply(ctx, f, [x], table=True, unroll_width=2000, part=4000)
        vs = [bin_verdict(o, I_, x, radix) for o in outs]
        digs = b'0123456789ABCDEF'[:radix]

        def want_of(t):
            s = t[1:] if t[:1] == b'+' else t
            if not s or any(bytes([c]).upper() not in [digs[i:i + 1] for i in range(radix)] for c in s):
                return ['Err']
            m = int(s, radix)
            return ['Err'] if m >= 1 << 128 else [m.to_bytes(max((m.bit_length() + 7) // 8, 1), 'big')]
        texts = [b'', b'0', b'1', b'00', b'10', b'0001', b'7', b'8', b'9', b'A', b'f', b'G', b'g', b'-1', b'1 ', b'\xff', b'100', b'0100', b'1' * 8, b'1' * 9, b'1' + b'0' * 16, b'7' * 20, b'F' * 32, b'1' + b'0' * 32, b'1' * 128, b'1' + b'0' * 128]
        n += judge(ctx, 'digits/decode ' + id, f.where, vs, lit_cases(ctx, f, [([t], want_of(t)) for t in texts]), 3)
        if id == 'b8':
            continue
        ctx.ob('encode/%s enabled' % id, is_int(f.enc, 1), 'the table says the function has an encoder', f.where)
        w = 8 if radix == 2 else 2
        vs, amb = [], {}
        for k in range(0, 20):
            xs = u8syms('q', k)
            variants = [('', None)] if k == 0 or k > 16 else [('nz', None), ('z', None)] if k > 1 else [('', None)]
            for tag, _ in variants:
                st = State()
                if tag:
                    st.facts[xs[0]] = ('dom', 1) if tag == 'z' else ('dom', FULL & ~1)
                cls = 'no bytes' if k == 0 else 'more than 16 bytes' if k > 16 else 'a leading zero byte' if tag == 'z' else None
                for opts, want in (opt_cases(id, k) if k in (1, 2, 5) else [([], {'text'})]):
                    I_, outs = call(ctx, f, sym('self'), eseq(xs), as_opts(opts), what='to_abe', hooks=[EncHook()], st=st.copy())
                    if not outs:
                        vs.append((False, '%d bytes: no outcome' % k))
                    for o in outs:
                        r = res(o)
                        d = '%d bytes, options %s: %s' % (k, opts, got_str(o, I_))
                        kind = {'NoValue': 'none', 'Err': 'err', 'Value': 'text'}.get(r[0], r[0])
                        if cls and kind != 'text':
                            vs.append((kind in ('none', 'err'), d))      # no text at all is right for bytes that do not survive
                            continue
                        if kind != 'text':
                            vs.append((kind in want, d))
                            continue
                        if 'text' not in want:
                            vs.append((False, d))
                            continue
                        if cls:
                            amb.setdefault(cls, d)
                        v = I_.content(o.st, r[1])
                        ps = text_parts(v)
                        head = b'[%s:' % id.encode()
                        if k == 0:
                            vs.append((as_lit(v) == head + b']', d))
                            continue
                        if len(ps) < 2 or ps[0] != head or ps[-1] != b']':
                            vs.append((None, d))
                            continue
                        bs = [digit_piece(p, radix, w) if isinstance(p, T) else None for p in ps[1:-1]]
                        vs.append((True if len(bs) == k and all(a is b for a, b in zip(bs, xs)) else None, d))
        for k in (1, 2, 5):
            b2, c = option_of_any_value(ctx, f, id, k)
            vs += [(False, d) for d in b2]
            n += c
        lits = [([bytes(b)], [head_of(id, bytes(b), radix)]) for k in range(1, 17) for b in ([255] * k, list(range(1, k + 1)), [16] + [0] * (k - 1), [8 * i % 251 + 1 for i in range(k)])]
        lits += [([bytes([b])], [head_of(id, bytes([b]), radix)]) for b in range(256)]
        n += judge(ctx, 'encode/' + id, f.where, vs, lit_cases(ctx, f, lits, what='to_abe'), 20)
        for cls in ('no bytes', 'a leading zero byte', 'more than 16 bytes'):
            ctx.ob('roundtrip/%s/%s' % (id, cls), cls not in amb, 'text that does not evaluate back to the bytes: ' + amb.get(cls, '') if cls in amb else 'no text', f.where)
    ctx.floor('paths', n, 100)


def head_of(id, b, radix):
    return b'[%s:%s]' % (id.encode(), b''.join(format(x, '08b' if radix == 2 else '02X').encode() for x in b))


def b64_piece(p, xs, id):
    if not isinstance(p, T):
        return False
    if p.op == 'call:str:replace':
        if as_lit(p.a[2]) != b'\\/' or not (is_int(p.a[1], 47) or as_lit(p.a[1]) == b'/'):
            return False
        p = p.a[0]
    elif id == 'bs':
        return False        # the standard alphabet contains the separator
    return p.op == 'b64e' and engine(p.a[0]) == ENG[id] and (p.a[1] is xs or same_terms(p.a[1], xs))


def parse_t(s):
    from program import pty
    return pty(s)


# ---------------------------------------------------------------------------------------------- C46
def py_slice(n, args):
    """positions python's x[start:stop:step] selects; 'e' for an argument that is no number"""
    v = []
    for i, a in enumerate(args):
        if a == b'' and i < 2:
            v.append(None)
            continue
        t = a.decode('latin1')
        u = t[1:] if t[:1] == '-' else t
        if not (u.isascii() and u.isdigit()):
            return [('e',)]
        m = int(t)
        if abs(m) >= 1 << (64 if i < 2 else 63) and not (i == 2 and m == -(1 << 63)):
            return [('e',)]
        v.append(m)
    while len(v) < 3:
        v.append(None)
    if v[2] == 0:
        return [('v', [])]
    return [('v', list(range(n))[v[0]:v[1]:v[2]])]


def slice_cases(ctx):
    big = [b'9223372036854775807', b'9223372036854775808', b'-9223372036854775808', b'18446744073709551615', b'-18446744073709551615', b'18446744073709551616', b'x', b'--1', b'1.0', b'-']
    ix = [b''] + [str(i).encode() for i in (range(-4, 5) if not ctx.thorough else range(-7, 8))]
    steps = [None, b'1', b'2', b'-1', b'-2', b'0', b'3', b'-3']
    out = []
    for n in ((0, 1, 3) if not ctx.thorough else range(0, 7)):
        out.append((n, []))
        for a in ix + big:
            out.append((n, [a]))
        for a in (ix[::2] if not ctx.thorough else ix) + big[:5]:
            for b in ix + big[:5]:
                for s in (steps if ctx.thorough and n > 2 else (None, b'2', b'-1', b'-2', b'0') if n == 3 else (None, b'-1')):
                    out.append((n, [a, b] if s is None else [a, b, s]))
        for s in big + [b'', b'-9223372036854775807']:
            for a in (b'', b'1', b'-1'):
                out.append((n, [a, b'', s]))
    return out


@rule('C46', level='proof', rule='outcome tables of slice, argument access and replace on symbolic bytes for all index shapes and boundaries; step relation of the replace loop for any length')
def c46(ctx):
    fs = lists(ctx, BY)
    need(ctx, fs, 'slice', 'replace')
    f = fs['slice']
    kw = dict(table=True, unroll_width=2000)
    bad, k, sure = [], 0, False
    for n, args in slice_cases(ctx):
        xs = u8syms('q', n)
        I_, outs = apply(ctx, f, [eseq(xs)] + [lit(a) for a in args], **kw)
        k += 1
        want = py_slice(n, args)
        for o in outs or [None]:
            if o is None or not matches(o, I_, xs, want):
                bad.append('%d bytes [%s]: want %s got %s' % (n, b':'.join(args).decode(), want_str(want), got_str(o, I_) if o else 'no outcome'))
                sure = sure or ctx.sure(I_)
    ctx.ob('slice', not bad, '; '.join(bad[:3]) or '%d cases' % k, f.where, sure)
    ctx.floor('slice cases', k, 800)
    # arguments
    av = lists(ctx, "scope::argv::ArgV<'o>")
    bad, k = [], 0
    for i in range(8):
        need(ctx, av, str(i))
        f = av[str(i)]
        if (f.lo, f.hi) != (0, 0) or not (is_adt(f.init, 'Some') and f.init.a[2][0] is TRUE):
            bad.append('[%d] takes arguments or may be chained' % i)
        for n in range(0, 9):
            xs = symseq('a', n)
            I_, outs = call(ctx, f, adt('ArgV', None, eseq(xs)), eseq([]), sym('init'), SC)
            for o in outs or [None]:
                k += 1
                r = res(o) if o else ('none',)
                if not (r[0] == 'Value' and I_.content(o.st, r[1]) is xs[i] if i < n else r[0] == 'Err'):
                    bad.append('[%d] of %d arguments: %s' % (i, n, got_str(o, I_) if o else 'no outcome'))
    ctx.ob('argv/fixed', not bad, '; '.join(bad[:3]) or '%d cases' % k, av['0'].where)
    b, env = ctx.method('abe', "scope::argv::ArgV::<'o>::try_fit")
    bad = []
    for n in range(0, 11):
        I_ = ctx.interp()
        v = eseq(symseq('a', n))
        outs = arms(I_.run_body(b, env, [v], State(), None))
        for o in outs or [None]:
            w = I_.content(o.st, o.v) if o and o.kind == 'ret' else None
            if w is None or not (is_adt(w, 'Some') and is_adt(w.a[2][0]) and I_.content(o.st, w.a[2][0].a[2][0]) is v if n <= 8 else is_adt(w, 'None')):
                bad.append('%d arguments: %s' % (n, show(w) if w is not None else 'no outcome'))
    ctx.ob('argv/fit', not bad, '; '.join(bad[:2]) or 'up to 8 arguments in order', b.name)
    arglist(ctx)
    replace_(ctx, fs['replace'])


def arglist(ctx):
    b, env = ctx.method('abe', "<scope::argv::ArgList<'o, A, B> as eval::Scope>::try_apply_func")
    from program import pty
    env = dict(env)
    ty = {'A': pty('&[&[u8]]'), 'B': pty('&[u8]')}
    for k in list(env):
        pass
    env.update(ty)
    bad, k = [], 0
    for n in range(0, 4):
        xs = symseq('a', n)
        self_v = adt('ArgList', None, eseq(xs), UNIT)
        for id in [b'0', b'1', b'2', b'3', b'9', b'18446744073709551615', b'x', b'', b'-1', b'argV', b'18446744073709551616', b'\xff']:
            for args, init in (([], TRUE), ([], FALSE), ([lit(b'z')], TRUE)):
                I_ = ctx.interp()
                outs = arms(I_.run_body(b, env, [self_v, lit(id), eseq(args), init, SC], State(), None))
                m = number(id)
                if m is not None and m >= 1 << 64:
                    m = None
                k += 1
                for o in outs or [None]:
                    r = res(o) if o else ('none',)
                    if m is None:
                        good = r[0] == 'NoValue'
                    elif args or init is FALSE:
                        good = r[0] == 'Err'
                    elif m < n:
                        good = r[0] == 'Value' and I_.content(o.st, r[1]) is xs[m]
                    else:
                        good = r[0] == 'Err'
                    if not good:
                        bad.append('[%s] with %d arguments of %d%s: %s' % (id.decode('latin1'), len(args), n, '' if init is TRUE else ' chained', got_str(o, I_) if o else 'no outcome'))
    ctx.ob('arglist/index', not bad, '; '.join(bad[:3]) or '%d cases' % k, b.name)
    bad, k = [], 0
    ix = [b'', b'0', b'1', b'2', b'3', b'5', b'-1', b'-2', b'-4', b'x']
    for n in (0, 1, 3):
        xs = symseq('a', n)
        self_v = adt('ArgList', None, eseq(xs), UNIT)
        for args in [[]] + [[a] for a in ix] + [[a, c] for a in ix for c in ix] + [[a, c, s] for a in ix[:4] for c in ix[:8:3] for s in (b'1', b'2', b'-1', b'0', b'y')]:
            I_ = ctx.interp(table=True, unroll_width=2000)
            outs = arms(I_.run_body(b, env, [self_v, lit(b'argv'), eseq([lit(a) for a in args]), TRUE, SC], State(), None))
            want = py_slice(n, args)[0]
            k += 1
            for o in outs or [None]:
                r = res(o) if o else ('none',)
                if not (r[0] == 'Err' if want[0] == 'e' else r[0] == 'Value' and I_.content(o.st, r[1]) is concat(*[xs[i] for i in want[1]])):
                    bad.append('[argv:%s] of %d: want %s got %s' % (b':'.join(args).decode(), n, want, got_str(o, I_) if o else 'no outcome'))
    ctx.ob('arglist/slice', not bad, '; '.join(bad[:3]) or '%d cases' % k, b.name)


def replace_(ctx, f):
    pats = [b'a', b'b', b'ab', b'aa', b'aba', b'aab', b'']
    bad, k = [], 0
    for n in range(0, 6 if not ctx.thorough else 8):
        for p in pats:
            for to in (b'', b'x', b'aa', b'ab'):
                qs = u8syms('q', n)
                st = State()
                for q in qs:
                    st.facts[q] = ('dom', 1 << 97 | 1 << 98)
                I_, outs = apply(ctx, f, [eseq(qs), lit(p), lit(to)], st=st, table=True, unroll_width=20000, part=20000)
                left = {w for w in itertools.product(b'ab', repeat=n)}
                for o in outs:
                    r = res(o)
                    for w in words(qs, o, b'ab'):
                        left.discard(w)
                        k += 1
                        g = as_lit(inst(I_.content(o.st, r[1]), qs, w)) if r[0] == 'Value' else None
                        want = bytes(w).replace(p, to) if p else bytes(w)
                        if g != want:
                            bad.append('[replace:%s:%s:%s] -> %s' % (bytes(w).decode(), p.decode(), to.decode(), g if g is not None else got_str(o, I_)))
                if left:
                    bad.append('no outcome for %d inputs of %d bytes' % (len(left), n))
    ctx.ob('replace/table', not bad, '; '.join(bad[:3]) or '%d cases' % k, f.where)
    ctx.ob('replace/argc', (f.lo, f.hi) == (3, 3), '%s..=%s' % (f.lo, f.hi), f.where)
    # any length
    b, fr, to = sym('x0'), sym('x1'), sym('x2')
    I_, outs = apply(ctx, f, [b, fr, to])
    bad, seen = [], 0
    for rec in I_.loops:
        L = Loop(rec)
        cur = [v for v in L.vars if v[3] is b]
        out = appends(L)
        if len(cur) != 1 or len(out) != 1:
            continue
        seen += 1
        p = cur[0][2]
        for s, nx, ap in zip(L.back, cur[0][4], out[0][1]):
            sw = fact(s, app('starts_with', p, fr))
            empty = s.decide(eq(length(fr), I(0))) is True
            if same_term(s, nx, p, I(1)):
                good = ap.op == 'seq' and same_terms(ap, eseq([index(p, I(0))])) and (True if sw is FALSE or empty else False if sw is TRUE else None)
            elif same_term(s, nx, p, length(fr)):
                good = seq(*ap.a) is to and (sw is TRUE and not empty if sw is not None else None)
            else:
                good = None
            if good is False:
                bad.append('at an offset: continues with %s, writes %s, when the pattern %s there' % (show(nx), show(ap), 'is' if sw is TRUE else 'is not' if sw is FALSE else 'may be'))
            elif good is None:
                seen -= 1
                break
    ctx.notes['replace: loop recognised'] = bool(seen)
    ctx.ob('replace/any length', not bad, '; '.join(bad[:3]) or ('step relation of %d loop' % seen if seen else 'loop shape not recognised: table only'), f.where)


def same_term(st, v, p, k):
    """v is p without its first k items"""
    return v is not None and v.op == 'sl' and v.a[0] is p and (v.a[2] is None or same_len(st, v.a[2], length(p))) and same_len(st, v.a[1], k)


# ---------------------------------------------------------------------------------------------- C47
class ForkHook(ScopeHook):
    """evaluation, parsing and encoding succeed with a named result or fail; which is recorded as a fact of the call"""
    names = {'parse_abe_strict_b': 1, 'parse_abe_b': 1, 'eval': 2, 'encode': 4, 'encode_abe': 4}

    def __init__(self, shape=0):
        ScopeHook.__init__(self)
        self.shape = shape

    def on_call(self, I_, fr, st, info, args, site):
        if info.trait is None and len(args) == self.names.get(info.method) and (info.self_ty is None or info.self_ty.n in ('eval', 'ast')):
            self.n += 1
            c = app('call:' + info.method, *[I_.content(st, a) for a in args])
            d = app('discr', c)
            out = []
            for i in (0, 1):
                f = st.facts.get(d)
                if f is not None and f[1].a[0] != i:
                    continue
                s = st.copy()
                s.facts[d] = ('=', I(i))
                out.append(Out('ret', ok(self.value(info.method, c)) if i == 0 else err(app('fld', c, 'Err', 0)), s))
            return out
        return ScopeHook.on_call(self, I_, fr, st, info, args, site)

    def value(self, m, c):
        v = app('fld', c, 'Ok', 0)
        if m == 'eval':
            return abl_term([(None, v)] if self.shape == 0 else [(None, v), (':', app('second', v))] if self.shape == 1 else [('/', v), (':', app('second', v))])
        return v

    def bytes(self, c):
        """what the evaluated list is as bytes"""
        v = app('fld', c, 'Ok', 0)
        return v if self.shape == 0 else concat(v, lit(b':'), app('second', v)) if self.shape == 1 else concat(lit(b'/'), v, lit(b':'), app('second', v))


def holds(st, c):
    """True/False: the call succeeded/failed on this path; None: it was not made"""
    f = st.facts.get(app('discr', c))
    return None if f is None else f[1].a[0] == 0


def expr_lists():
    """expression lists a macro gets: with and without the leading colon, empty parts, either separator"""
    b = [('B', sym('e%d' % i)) for i in range(8)]
    l = ('L', [('B', sym('g')), CO])
    C, F = CO, FS
    return [[], [C], [F], [b[0]], [b[0], C], [C, b[0]], [C, C], [C, C, b[0]], [C, F], [C, F, b[0]], [C, b[0], F], [C, b[0], C, b[1]], [C, b[0], C], [C, b[0], F, b[1]],
            [C, b[0], F, b[1], F, b[2]], [C, b[0], F, b[1], C, b[2], F, b[3]], [C, b[0], C, b[1], F, b[2]], [C, l], [C, l, F, b[0]], [C, b[0], C, l, C, b[1]],
            [x for i in range(40) for x in (C, ('B', sym('m%d' % i)))], [C] + [('B', sym('m%d' % i)) for i in range(70)] + [F, b[0]],
            [b[0], F, b[1]], [F, b[0], C, b[1]], [C, b[0], C, C, b[1]], [C, C, C], [C, b[0], C, b[1], C, b[2]], [l], [l, C, b[0]]]


def split_at(t, sep):
    out = [[]]
    for x in t:
        if x == sep:
            out.append([])
        else:
            out[-1].append(x)
    return out


def show_t(t):
    return ''.join(x[1] if x[0] == 'C' else show(x[1]) if x[0] == 'B' else '[' + show_t(x[1]) + ']' for x in t)


@rule('C47', level='proof', rule='outcome tables of every encode and logic function and macro with uninterpreted evaluation, parsing and encoding that may fail: which call is made on which part, and what its result or failure becomes')
def c47(ctx):
    E, L = 'scope::encode::Encode', 'scope::logic::LogicOps'
    ef, em, lf, lm = lists(ctx, E), lists(ctx, E, 'list_macros'), lists(ctx, L), lists(ctx, L, 'list_macros')
    need(ctx, ef, 'eval', '?', '??', '???')
    need(ctx, em, 'e', '?', '~?')
    need(ctx, lf, 'size?', 'val?')
    need(ctx, lm, 'or')
    cm, cf = lists(ctx, 'scope::comment::Comment', 'list_macros'), lists(ctx, 'scope::comment::Comment')
    n = 0
    for id, ign in (('e', None), ('?', FALSE), ('~?', TRUE)):
        bad, k = [], 0
        for shape in (0, 1, 2):
            for t in expr_lists():
                hk = ForkHook(shape)
                I_, outs = call(ctx, em[id], sym('self'), abe_term(t), SC, hooks=[hk], table=True, unroll_width=2000)
                for o in outs or [None]:
                    k += 1
                    r = res(o) if o else ('none',)
                    if not t or t[0] != CO:
                        good, want = r[0] == 'Err', 'an error'
                    else:
                        head, _, rest = partition(t[1:], FS) if id != 'e' else (t[1:], None, None)
                        c = app('call:eval', SC, abe_term(head))
                        h = holds(o.st, c) if o else None
                        if h is not True:
                            good, want = h is False and r[0] == 'Err', 'the evaluation of %s' % show_t(head)
                        elif id == 'e':
                            good, want = r[0] == 'Value' and same_val(I_.content(o.st, r[1]), hk.bytes(c)), 'the evaluated bytes'
                        else:
                            hs = [app('call:encode_abe', SC, hk.bytes(c), abe_term(rest), ign)]
                            h = holds(o.st, hs[0])
                            want = 'encode_abe of the bytes with %s' % show_t(rest)
                            good = h is False and r[0] == 'Err' or h is True and r[0] == 'Value' and I_.content(o.st, r[1]) is app('fld', hs[0], 'Ok', 0)
                    if not good:
                        bad.append('{/%s%s}: want %s got %s' % (id, show_t(t), want, got_str(o, I_) if o else 'no outcome'))
        n += k
        ctx.ob('macro/' + id, not bad, '; '.join(bad[:2]) or '%d outcomes' % k, em[id].where)
    # or
    bad, k = [], 0
    for shape in (0, 1, 2):
        for t in expr_lists():
            hk = ForkHook(shape)
            I_, outs = call(ctx, lm['or'], sym('self'), abe_term(t), SC, hooks=[hk], table=True, unroll_width=2000)
            alts = [app('call:eval', SC, abe_term(p)) for p in split_at(t, CO)[1:]]
            first = split_at(t, CO)[0]
            for o in outs or [None]:
                k += 1
                r = res(o) if o else ('none',)
                if first or not alts:
                    good, want = r[0] == 'Err', 'an error'
                else:
                    good, want = r[0] == 'Err', 'an error when all fail'
                    for c in alts:
                        h = holds(o.st, c) if o else None
                        if h is None:
                            good, want = False, 'every alternative tried until one succeeds'
                            break
                        if h:
                            good, want = r[0] == 'Value' and same_val(I_.content(o.st, r[1]), hk.bytes(c)), 'the first value'
                            break
                if not good:
                    bad.append('{/or%s}: want %s got %s' % (show_t(t), want, got_str(o, I_) if o else 'no outcome'))
    n += k
    ctx.ob('macro/or', not bad, '; '.join(bad[:2]) or '%d outcomes' % k, lm['or'].where)
    # functions
    x0, x1 = sym('x0'), sym('x1')
    hk = ForkHook(1)
    for shape in (0, 1, 2):
        hk = ForkHook(shape)
        I_, outs = call(ctx, ef['eval'], sym('self'), eseq([x0]), sym('init'), SC, hooks=[hk], table=True)
        bad = []
        p = app('call:parse_abe_strict_b', x0)
        for o in outs or [None]:
            n += 1
            r = res(o) if o else ('none',)
            h = holds(o.st, p) if o else None
            if h:
                c = app('call:eval', SC, app('fld', p, 'Ok', 0))
                h = holds(o.st, c)
                good = h is False and r[0] == 'Err' or h is True and r[0] == 'Value' and same_val(I_.content(o.st, r[1]), hk.bytes(c))
            else:
                good = h is False and r[0] == 'Err'
            if not good:
                bad.append(got_str(o, I_) if o else 'no outcome')
        ctx.ob('func/eval/%d' % shape, not bad and len(outs) == 3, '; '.join(bad[:2]) or '%d outcomes' % len(outs), ef['eval'].where)
    ctx.ob('func/eval/argc', (ef['eval'].lo, ef['eval'].hi) == (1, 1), '%s..=%s' % (ef['eval'].lo, ef['eval'].hi), ef['eval'].where)
    encode_funcs(ctx, ef)
    # logic functions
    for id, m, vals in (('size?', 5, None), ('val?', 5, None)):
        f = lf[id]
        ctx.ob('logic/%s/argc' % id, (f.lo, f.hi) == (3, 3), '%s..=%s' % (f.lo, f.hi), f.where)
        bad, k = [], 0
        for op in (b'=', b'', b'==', b'<', b'>', b'!', b'=\0', b' =', b'0', b'1'):
            for ln in range(0, 5):
                xs = u8syms('q', ln)
                for v in ((b'0', b'1', b'2', b'3', b'4', b'+2', b'03', b'', b'x', b'-1', b'18446744073709551616', b'18446744073709551615', b'2 ') if id == 'size?' else range(0, 4)):
                    y = lit(v) if id == 'size?' else eseq(u8syms('r', v))
                    I_, outs = apply(ctx, f, [eseq(xs), lit(op), y], table=True)
                    for o in outs or [None]:
                        k += 1
                        r = res(o) if o else ('none',)
                        if op != b'=':
                            good = r[0] == 'Err'
                        elif id == 'size?':
                            good = (r[0] == 'Value' and same_bytes(r[1], xs, I_, o.st)) if number(v) == ln else r[0] == 'Err'
                        elif v != ln:
                            good = r[0] == 'Err'
                        else:
                            same = all_equal(o.st, xs, u8syms('r', v)) if o else None
                            good = same is True and r[0] == 'Value' and same_bytes(r[1], xs, I_, o.st) or same is False and r[0] == 'Err'
                        if not good:
                            bad.append('[%s] of %d bytes %r %r: %s' % (id, ln, op, v, got_str(o, I_) if o else 'no outcome'))
        n += k
        ctx.ob('logic/' + id, not bad, '; '.join(bad[:2]) or '%d outcomes' % k, f.where)
    # comment
    for nm, d, args in (('func', cf, None), ('macro', cm, None)):
        for id, f in d.items():
            bad = []
            for xs in ([], [x0], [x0, x1], [x0] * 8):
                if nm == 'func':
                    if not (f.lo <= len(xs) <= f.hi):
                        continue
                    I_, outs = apply(ctx, f, xs)
                else:
                    I_, outs = call(ctx, f, sym('self'), abe_term([CO] + [('B', x) for x in xs]), SC)
                for o in outs or [None]:
                    n += 1
                    r = res(o) if o else ('none',)
                    if not (r[0] == 'Value' and I_.content(o.st, r[1]) is EMPTY):
                        bad.append(got_str(o, I_) if o else 'no outcome')
            ctx.ob('comment/%s %s' % (nm, id), not bad, '; '.join(bad[:2]) or 'empty', f.where)
    need(ctx, cf, 'C') if cf else need(ctx, cm, 'C')
    ctx.floor('outcomes', n, 300)


def same_val(a, b):
    return a is b or same_terms(a, b)


def partition(t, sep):
    if sep in t:
        i = t.index(sep)
        return t[:i], sep, t[i + 1:]
    return t, None, []


def all_equal(st, xs, ys):
    v = True
    for x, y in zip(xs, ys):
        d = st.decide(eq(x, y))
        if d is False:
            return False
        if d is None:
            v = None
    if v is None:
        f = fact(st, eq(eseq(xs), eseq(ys)))
        return None if f is None else f is TRUE
    return v


def encode_funcs(ctx, ef):
    x0, x1 = sym('x0'), sym('x1')
    texts = [b'[u8:1]', b'abc', b'[a:x:y]', b'[b:]', b'[]', b'[', b']', b'', b'[x', b'x]', b'[[a]]', b'[:a]', b'[a]', b'[a/b:c]', b'[a\\:b:c]', b'[a:b', b'a:b]']

    def want_text(id, b):
        if id == '?' or not (b[:1] == b'[' and b[-1:] == b']' and len(b) > 1):
            return b
        b = b[1:-1]
        return b if id == '??' else b.partition(b':')[2]
    for id in ('?', '??', '???'):
        f = ef[id]
        ctx.ob('func/%s/argc' % id, f.lo == 2, '%s..=%s' % (f.lo, f.hi), f.where)
        bad, k, sure = [], 0, False
        for more in (0, 1, 2):
            I_, outs = call(ctx, f, sym('self'), eseq([x0, x1] + symseq('o', more)), sym('init'), SC, hooks=[ForkHook()], table=True)
            c = [app('call:encode', SC, x0, x1, FALSE)]
            for o in outs or [None]:
                k += 1
                r = res(o) if o else ('none',)
                h = holds(o.st, c[0]) if o else None
                if more or h is None:
                    # not text: an error as well
                    good = r[0] == 'Err' and (more or fact(o.st, app('is_utf8', x1)) is FALSE)
                elif h is False:
                    good = r[0] == 'Err'
                else:
                    good = r[0] == 'Value' and (id != '?' or I_.content(o.st, r[1]) is app('fld', c[0], 'Ok', 0))
                if not good:
                    bad.append('%d options: %s' % (more, got_str(o, I_) if o else 'no outcome'))
        class Lit(ForkHook):
            def value(self, m, c):
                return lit(self.text) if m == 'encode' else ForkHook.value(self, m, c)
        for t in texts:
            hk = Lit()
            hk.text = t
            I_, outs = call(ctx, f, sym('self'), eseq([x0, lit(b'k')]), sym('init'), SC, hooks=[hk], table=True)
            c = app('call:encode', SC, x0, lit(b'k'), FALSE)
            hit = 0
            for o in outs:
                k += 1
                r = res(o)
                if holds(o.st, c) is False:
                    good = r[0] == 'Err'
                else:
                    hit += 1
                    good = holds(o.st, c) and r[0] == 'Value' and as_lit(I_.content(o.st, r[1])) == want_text(id, t)
                if not good:
                    bad.append('encoded %s: want %s got %s' % (t.decode(), want_text(id, t).decode(), got_str(o, I_)))
                    sure = sure or ctx.sure(I_)
            if not hit:
                bad.append('no outcome for encoded %s' % t.decode())
        ctx.ob('func/' + id, not bad, '; '.join(bad[:2]) or '%d outcomes' % k, f.where, sure)
