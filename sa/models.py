"""Models of the standard library (and of the few leaf dependencies) used by the analysed crates."""
import re
from dom import *
from interp import Out, join, forall, same, iter_known, strip_gen, UNROLL, fr_key, Unsupported, CalleeInfo
from program import pty, Ty

PRE, POST = {}, {}
TABLE = (PRE, POST)
SKIP = T('SKIP', ())
INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')
SEQB = ('[]', 'Vec', 'str', 'String')


def post(*keys):
    def d(f):
        for k in keys:
            POST[k] = f
        return f
    return d


def pre(*keys):
    def d(f):
        for k in keys:
            PRE[k] = f
        return f
    return d


def R(st, v):
    return [Out('ret', v, st)]


def pan(I, fr, st, msg, outs=None):
    o = [] if outs is None else outs
    I.panic(fr, st, msg, None, o)
    return o


def rettype(info):
    return info.gen[0] if info.gen else None


# ------------------------------------------------------------------ callables
@pre('Fn:call', 'FnMut:call_mut', 'FnOnce:call_once')
def _call(I, fr, st, info, args, site):
    a = I.deref(st, args[1])
    n = None
    if a.op == 'tup':
        xs = list(a.a)
    else:
        xs = [I.field(a, 0)]
    return I.call_value(fr, st, args[0], xs, site)


# ---------------------------------------------------------------- identity-ish
def ident(I, fr, st, info, args, site):
    return R(st, args[0])


def ident_deref(I, fr, st, info, args, site):
    return R(st, I.deref(st, args[0]))


for k in ('Rc:Deref:deref', 'Arc:Deref:deref', 'Box:Deref:deref', 'Vec:Deref:deref', 'String:Deref:deref', 'Cow:Deref:deref', 'ArrayVec:Deref:deref', 'ArrayVec:as_slice',
          'PathBuf:Deref:deref', 'Pin:Deref:deref', 'LazyCell:Deref:deref', 'ManuallyDrop:Deref:deref', 'GenericArray:Deref:deref',
          'Vec:AsRef:as_ref', '[]:AsRef:as_ref', 'str:AsRef:as_ref', 'String:AsRef:as_ref', 'AsRef:as_ref',
          'Cow:Borrow:borrow', 'Borrow:borrow', 'Vec:as_slice', '[]:as_slice', 'String:as_str', 'String:as_bytes', 'str:as_bytes',
          'Cow:into_owned', 'Clone:clone', 'ToOwned:to_owned', '[]:to_vec', 'Option:as_ref', 'Result:as_ref', 'Option:copied', 'Option:cloned', 'Option:as_deref',
          'String:into_bytes', 'Vec:into_boxed_slice', '[]:into_vec', 'slice::into_vec', 'str:as_str', 'Path:as_ref',
          'BStr:new', 'HashSet:Clone:clone', 'Hash:as_bytes', 'Uint:clone'):
    POST[k] = ident_deref
for k in ('Rc:new', 'Arc:new', 'Box:new', 'Box:pin', 'Pin:new', 'Pin:new_unchecked', 'Pin:as_mut', 'Vec:DerefMut:deref_mut', 'Box:DerefMut:deref_mut',
          'String:DerefMut:deref_mut', 'Vec:as_mut_slice', 'mem:drop', 'ManuallyDrop:new', 'LazyCell:new', 'Into:into#id',
          'panicking:must_use', '__private:must_use', 'black_box', 'IntoFuture:into_future', 'Iterator:by_ref', 'AsMut:as_mut', 'BorrowMut:borrow_mut',
          'anyhow:Ok#'):
    POST[k] = ident
PRE['Clone:clone'] = ident_deref


@post('u8:carrying_add', 'u16:carrying_add', 'u32:carrying_add', 'u64:carrying_add', 'usize:carrying_add',
      'u8:borrowing_sub', 'u16:borrowing_sub', 'u32:borrowing_sub', 'u64:borrowing_sub', 'usize:borrowing_sub')
def _carry(I, fr, st, info, args, site):
    ty = info.self_ty.n
    a, b, c = [st.norm(I.deref(st, x)) for x in args]
    c = I_(c.a[0], ty) if c.op == 'i' else app('cast', c, ty)
    v = add(add(a, b), c) if info.method == 'carrying_add' else sub(sub(a, b), c)
    if v.op == 'i':
        return R(st, tup(I_(wrap(v.a[0], ty), ty), B(not in_range(v.a[0], ty))))
    return R(st, tup(app('wrap', v, ty), app('ovf', v, ty)))


@post('u8:from_str_radix', 'u16:from_str_radix', 'u32:from_str_radix', 'u64:from_str_radix', 'u128:from_str_radix', 'usize:from_str_radix')
def _radix(I, fr, st, info, args, site):
    ty = info.self_ty.n
    v, r = I.content(st, args[0]), st.norm(args[1])
    if r.op == 'i' and is_bytes(v):
        b, dig = to_bytes(v), b'0123456789abcdefghijklmnopqrstuvwxyz'[:r.a[0]]
        d = b[1:] if b[:1] == b'+' else b
        if not d or any(bytes([x]).lower() not in [dig[i:i + 1] for i in range(len(dig))] for x in d):
            return R(st, err(app('ParseIntError', v)))
        n = int(bytes(d), r.a[0])
        return R(st, ok(I_(n, ty)) if in_range(n, ty) else err(app('ParseIntError', v)))
    es = elems(v) if r.op == 'i' else None
    if es and len(es) <= 4 and in_range(r.a[0] ** len(es) - 1, ty):
        # a text of known length: an optional plus sign, then only digits
        e = lambda: err(app('ParseIntError', v))
        if len(es) == 1:
            es = [(x, 0) for x in es]
        else:
            es = [(x, i == 0) for i, x in enumerate(es)]
        outs, states = [], [st]
        for x, first in es:
            U8.add(x)
            nxt = []
            for s in states:
                for k, s2 in I.fork_bool(s, app('u8.radixfirst' if first else 'u8.radixdigit', x, r)):
                    if k:
                        nxt.append(s2)
                    else:
                        outs.append(Out('ret', e(), s2))
            states = nxt
        n = I_(0, ty)
        for x, _ in es:
            n = add(scale(n, r.a[0]), app('u8.radixval', x, r))
        return outs + [Out('ret', ok(n), s) for s in states]
    return R(st, app('parse_radix', v, r, ty))


def _digit(c, r):
    d = b'0123456789abcdefghijklmnopqrstuvwxyz'.find(bytes([c]).lower()) if c < 128 else -1
    return d if 0 <= d < r else -1


EVAL['u8.radixdigit'] = lambda t, env: int(_digit(ev(t.a[0], env), t.a[1].a[0]) >= 0)
EVAL['u8.radixfirst'] = lambda t, env: int(ev(t.a[0], env) == 43 or _digit(ev(t.a[0], env), t.a[1].a[0]) >= 0)
EVAL['u8.radixval'] = lambda t, env: max(0, _digit(ev(t.a[0], env), t.a[1].a[0]))


@post('GeneralPurpose:Engine:encode', 'Engine:encode')
def _b64e(I, fr, st, info, args, site):
    return R(st, app('b64e', I.content(st, args[0]), I.content(st, args[1])))


@post('GeneralPurpose:Engine:decode', 'Engine:decode')
def _b64d(I, fr, st, info, args, site):
    e, v = I.content(st, args[0]), I.content(st, args[1])
    if v.op == 'b64e' and v.a[0] is e:
        return R(st, ok(v.a[1]))
    return R(st, app('b64d', e, v))


@post('GeneralPurpose:Engine:decode_slice_unchecked', 'GeneralPurpose:Engine:decode_slice', 'Engine:decode_slice', 'Engine:decode_slice_unchecked')
def _b64ds(I, fr, st, info, args, site):
    """an error, or the decoded bytes written to the front of the buffer and their number; a text of a known length without padding decodes to three quarters
    of it. A buffer that may be too small is an error (checked form) or a panic"""
    e, v, out = I.content(st, args[0]), I.content(st, args[1]), I.content(st, args[2])
    old = elems(out)
    d = app('b64d', e, v)
    r = []
    for s, k, x in I.res(st, d):
        if not k:
            r.append(Out('ret', err(x), s))
            continue
        n = known_len(v)
        lo, hi = (n, n) if n is not None else s.bounds(app('len', v))
        if old is None or lo is None or lo != hi or not show(e).endswith('NO_PAD'):
            if info.method == 'decode_slice':
                r.append(Out('ret', err(app('OutputSliceTooSmall')), s.copy()))
            else:
                pan(I, fr, s.copy(), 'the output of base64 decoding may be too small', r)
            m = app('len', x)
            store(I, s, args[2], app('overwritten', out, x))
            r.append(Out('ret', ok(m), s))
            continue
        n = lo * 3 // 4
        if lo % 4 == 1:
            continue        # not the length of a base64 text
        if n > len(old):
            if info.method == 'decode_slice':
                r.append(Out('ret', err(app('OutputSliceTooSmall')), s))
            else:
                pan(I, fr, s, 'the output of base64 decoding is too small', r)
            continue
        store(I, s, args[2], eseq([app('idx', x, I_(i)) for i in range(n)] + list(old[n:])))
        r.append(Out('ret', ok(I_(n)), s))
    return r


@post('GeneralPurpose:Engine:encode_string', 'Engine:encode_string')
def _b64es(I, fr, st, info, args, site):
    w_append(I, st, args[2], app('b64e', I.content(st, args[0]), I.content(st, args[1])))
    return R(st, UNIT)


@post('Base64Display:new')
def _b64disp(I, fr, st, info, args, site):
    return R(st, app('b64e', I.content(st, args[1]), I.content(st, args[0])))


@post('*:cast', 'ptr:from_ref', 'ptr:from_mut')
def _ptrcast(I, fr, st, info, args, site):
    return R(st, args[0])


@post('exchange_malloc', 'alloc:exchange_malloc')
def _mal(I, fr, st, info, args, site):
    return R(st, app('undef', 0, 0))


@post('UnsafeArg:new')
def _unsarg(I, fr, st, info, args, site):
    return R(st, UNIT)


@post('anyhow:Ok')
def _aok(I, fr, st, info, args, site):
    return R(st, ok(args[0]))


@post('mem:drop')
def _drop(I, fr, st, info, args, site):
    return R(st, UNIT)


def default_of(I, fr, st, t, site):
    if t is None:
        return None
    if t.n in MASK:
        return I_(0, t.n)
    if t.n in ('Vec', 'String', '[]', 'str', '&', 'HashSet', 'VecDeque', 'BTreeMap', 'HashMap', 'Cow', 'PathBuf', 'ArrayVec'):
        return EMPTY
    if t.n == 'Option':
        return NONE
    if t.n == '()':
        return UNIT if not t.a else T('tup', tuple(default_of(I, fr, st, x, site) for x in t.a))
    if t.n == '[;]':
        d = default_of(I, fr, st, t.a[0], site)
        m = re.match(r'\d+', t.a[1].n)
        if d is not None:
            return rep(d, I_(int(m.group(0)), 'usize') if m else sym('const ' + t.a[1].n))
    if t.n in ('AtomicU64', 'AtomicBool', 'AtomicUsize'):
        return I_(0, 'u64')
    return None


I_ = I


@post('Default:default')
def _default(I, fr, st, info, args, site):
    v = default_of(I, fr, st, info.self_ty, site)
    if v is None:
        return NotImplemented
    return R(st, v)


@post('mem:take')
def _take(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    t = rettype(info)
    d = default_of(I, fr, st, t, site)
    if d is None:
        return NotImplemented
    if args[0].op == 'ref':
        c = args[0]
        while True:
            x = I.get(st, c.a[0], c.a[1])
            if x.op != 'ref':
                break
            c = x
        I.put(st, c.a[0], c.a[1], d)
    return R(st, v)


def target(I, st, r):
    """final (cell, path) of a mutable reference, or None"""
    n = 0
    while r.op == 'ref' and n < 10:
        x = I.get(st, r.a[0], r.a[1])
        if x.op != 'ref':
            return r.a
        r = x
        n += 1
    return None


def store(I, st, r, v):
    t = target(I, st, r)
    if t is not None:
        I.put(st, t[0], t[1], v)


def _wrapping(I, fr, st, info, args, site):
    """num::Wrapping / num::Saturating arithmetic; the other operand may be the plain integer"""
    kind = info.self_ty.n
    ty = info.self_ty.a[0].n if info.self_ty.a else None
    un = lambda v: I.field(v, 0) if v.op == 'adt' and v.a[0] == kind else v
    asg = info.method.endswith('_assign')
    if ty not in MASK:
        return None
    a, b = [st.norm(un(I.deref(st, x))) for x in args[:2]]
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}.get(info.method.replace('_assign', ''))
    if op is None:
        return None
    v = I.binop(st, op, a, b, ty)
    if v.op != 'i':
        v = app('wrap', v, ty)
    if kind == 'Saturating':
        x = add(a, b) if op == 'Add' else sub(a, b) if op == 'Sub' else None
        if x is None or x.op != 'i':
            v = app('saturating_' + info.method.replace('_assign', ''), a, b, ty)
        else:
            v = I_(min(max(x.a[0], lo_hi(ty)[0]), lo_hi(ty)[1]), ty)
    v = T('adt', (kind, None, (v,)))
    if asg:
        store(I, st, args[0], v)
        return R(st, UNIT)
    return R(st, v)


def lo_hi(ty):
    return (-(1 << MASK[ty] - 1), (1 << MASK[ty] - 1) - 1) if signed(ty) else (0, (1 << MASK[ty]) - 1)


for _k in ('Wrapping', 'Saturating'):
    for _t in ('Add', 'Sub', 'Mul'):
        POST['%s:%s:%s' % (_k, _t, _t.lower())] = _wrapping
        POST['%s:%sAssign:%s_assign' % (_k, _t, _t.lower())] = _wrapping


@post('mem:replace')
def _replace(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    store(I, st, args[0], args[1])
    return R(st, v)


@post('mem:size_of')
def _sizeof(I, fr, st, info, args, site):
    t = rettype(info)
    n = I.sizeof(t) if t is not None else None
    return R(st, I_(n) if n is not None else app('SizeOf', repr(t)))


# --------------------------------------------------------------- Option/Result
def fnm(f):
    return f


@post('Option:Try:branch')
def _obr(I, fr, st, info, args, site):
    return [Out('ret', adt('ControlFlow', 'Continue', x) if x is not None else adt('ControlFlow', 'Break', NONE), s) for s, x in I.opt(st, args[0])]


@post('Result:Try:branch')
def _rbr(I, fr, st, info, args, site):
    return [Out('ret', adt('ControlFlow', 'Continue', x) if k else adt('ControlFlow', 'Break', err(x)), s) for s, k, x in I.res(st, args[0])]


@post('Option:Try:from_output')
def _ofo(I, fr, st, info, args, site):
    return R(st, some(args[0]))


@post('Result:Try:from_output')
def _rfo(I, fr, st, info, args, site):
    return R(st, ok(args[0]))


@post('Option:FromResidual:from_residual')
def _ofr(I, fr, st, info, args, site):
    return R(st, NONE)


@post('Result:FromResidual:from_residual')
def _rfr(I, fr, st, info, args, site):
    r = []
    dst = info.self_ty.a[1] if info.self_ty is not None and len(info.self_ty.a) > 1 else None
    src = None
    if info.trait is not None and info.trait.a and info.trait.a[0].n == 'Result' and len(info.trait.a[0].a) > 1:
        src = info.trait.a[0].a[1]
    v = I.deref(st, args[0])
    if v.op == 'adt' and v.a[1] == 'None':
        return R(st, NotImplemented) if False else NotImplemented
    e = v.a[2][0] if v.op == 'adt' else app('fld', v, 'Err', 0)
    return I.then(conv(I, fr, st, e, src, dst, site), lambda s, x: R(s, err(x)))


def o_or(I, fr, st, v, f_none, f_some):
    r = []
    for s, x in I.opt(st, v):
        r += f_none(s) if x is None else f_some(s, x)
    return r


def r_or(I, st, v, f_ok, f_err):
    r = []
    for s, k, x in I.res(st, v):
        r += f_ok(s, x) if k else f_err(s, x)
    return r


@post('Option:map')
def _om(I, fr, st, info, args, site):
    return o_or(I, fr, st, args[0], lambda s: R(s, NONE),
                lambda s, x: I.then(I.call_value(fr, s, args[1], [x], site), lambda s2, y: R(s2, some(y))))


@post('Option:and_then')
def _oat(I, fr, st, info, args, site):
    return o_or(I, fr, st, args[0], lambda s: R(s, NONE), lambda s, x: I.call_value(fr, s, args[1], [x], site))


@post('Option:or')
def _oor(I, fr, st, info, args, site):
    return o_or(I, fr, st, args[0], lambda s: R(s, args[1]), lambda s, x: R(s, some(x)))


@post('Option:or_else')
def _ooe(I, fr, st, info, args, site):
    return o_or(I, fr, st, args[0], lambda s: I.call_value(fr, s, args[1], [], site), lambda s, x: R(s, some(x)))


@post('Option:filter')
def _of(I, fr, st, info, args, site):
    def sm(s, x):
        return I.then(I.call_value(fr, s, args[1], [x], site),
                      lambda s2, b: [Out('ret', some(x) if k else NONE, s3) for k, s3 in I.fork_bool(s2, b)])
    return o_or(I, fr, st, args[0], lambda s: R(s, NONE), sm)


@post('Option:is_some_and')
def _oisa(I, fr, st, info, args, site):
    return o_or(I, fr, st, args[0], lambda s: R(s, FALSE), lambda s, x: I.call_value(fr, s, args[1], [x], site))


@post('Option:is_some')
def _ois(I, fr, st, info, args, site):
    return [Out('ret', B(x is not None), s) for s, x in I.opt(st, args[0])]


@post('Option:is_none')
def _oin(I, fr, st, info, args, site):
    return [Out('ret', B(x is None), s) for s, x in I.opt(st, args[0])]


@post('Result:is_ok')
def _rio(I, fr, st, info, args, site):
    return [Out('ret', B(k), s) for s, k, x in I.res(st, args[0])]


@post('Result:is_err')
def _rie(I, fr, st, info, args, site):
    return [Out('ret', B(not k), s) for s, k, x in I.res(st, args[0])]


@post('Option:unwrap', 'Option:expect')
def _ou(I, fr, st, info, args, site):
    return o_or(I, fr, st, args[0], lambda s: pan(I, fr, s, 'unwrap on None'), lambda s, x: R(s, x))


@post('Result:unwrap', 'Result:expect')
def _ru(I, fr, st, info, args, site):
    return r_or(I, st, args[0], lambda s, x: R(s, x), lambda s, x: pan(I, fr, s, 'unwrap on Err'))


@post('Result:unwrap_err', 'Result:expect_err')
def _rue(I, fr, st, info, args, site):
    return r_or(I, st, args[0], lambda s, x: pan(I, fr, s, 'unwrap_err on Ok'), lambda s, x: R(s, x))


@post('Option:unwrap_or')
def _ouo(I, fr, st, info, args, site):
    return o_or(I, fr, st, args[0], lambda s: R(s, args[1]), lambda s, x: R(s, x))


@post('Option:unwrap_or_else')
def _ouoe(I, fr, st, info, args, site):
    return o_or(I, fr, st, args[0], lambda s: I.call_value(fr, s, args[1], [], site), lambda s, x: R(s, x))


@post('Option:map_or')
def _omo(I, fr, st, info, args, site):
    return o_or(I, fr, st, args[0], lambda s: R(s, args[1]), lambda s, x: I.call_value(fr, s, args[2], [x], site))


@post('Option:map_or_else')
def _omoe(I, fr, st, info, args, site):
    return o_or(I, fr, st, args[0], lambda s: I.call_value(fr, s, args[1], [], site), lambda s, x: I.call_value(fr, s, args[2], [x], site))


@post('Result:unwrap_or')
def _ruo(I, fr, st, info, args, site):
    return r_or(I, st, args[0], lambda s, x: R(s, x), lambda s, x: R(s, args[1]))


@post('Result:unwrap_or_else')
def _ruoe(I, fr, st, info, args, site):
    return r_or(I, st, args[0], lambda s, x: R(s, x), lambda s, x: I.call_value(fr, s, args[1], [x], site))


@post('Result:map_or')
def _rmo(I, fr, st, info, args, site):
    return r_or(I, st, args[0], lambda s, x: I.call_value(fr, s, args[2], [x], site), lambda s, x: R(s, args[1]))


@post('Option:unwrap_or_default', 'Result:unwrap_or_default')
def _uod(I, fr, st, info, args, site):
    t = info.self_ty.a[0] if info.self_ty is not None and info.self_ty.a else None

    def dflt(s):
        d = default_of(I, fr, s, t, site)
        return R(s, d if d is not None else app('default', repr(t)))
    if info.base == 'Option':
        return o_or(I, fr, st, args[0], dflt, lambda s, x: R(s, x))
    return r_or(I, st, args[0], lambda s, x: R(s, x), lambda s, x: dflt(s))


@post('Option:ok_or')
def _ook(I, fr, st, info, args, site):
    return o_or(I, fr, st, args[0], lambda s: R(s, err(args[1])), lambda s, x: R(s, ok(x)))


@post('Option:ok_or_else')
def _ooke(I, fr, st, info, args, site):
    return o_or(I, fr, st, args[0], lambda s: I.then(I.call_value(fr, s, args[1], [], site), lambda s2, e: R(s2, err(e))), lambda s, x: R(s, ok(x)))


@post('Option:Context:context', 'Option:Context:with_context')
def _oc(I, fr, st, info, args, site):
    return o_or(I, fr, st, args[0], lambda s: R(s, err(app('anyhow', I.content(s, args[1])))), lambda s, x: R(s, ok(x)))


@post('Result:Context:context', 'Result:Context:with_context')
def _rc(I, fr, st, info, args, site):
    return r_or(I, st, args[0], lambda s, x: R(s, ok(x)), lambda s, e: R(s, err(app('anyhow', I.content(s, args[1]), e))))


@post('Option:transpose')
def _otr(I, fr, st, info, args, site):
    return o_or(I, fr, st, args[0], lambda s: R(s, ok(NONE)),
                lambda s, x: r_or(I, s, x, lambda s2, y: R(s2, ok(some(y))), lambda s2, e: R(s2, err(e))))


@post('Option:take')
def _otk(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    store(I, st, args[0], NONE)
    return R(st, v)


@post('Option:replace')
def _orp(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    store(I, st, args[0], some(args[1]))
    return R(st, v)


@post('Option:zip')
def _oz(I, fr, st, info, args, site):
    return o_or(I, fr, st, args[0], lambda s: R(s, NONE),
                lambda s, x: o_or(I, fr, s, args[1], lambda s2: R(s2, NONE), lambda s2, y: R(s2, some(tup(x, y)))))


@post('Result:map')
def _rm(I, fr, st, info, args, site):
    return r_or(I, st, args[0], lambda s, x: I.then(I.call_value(fr, s, args[1], [x], site), lambda s2, y: R(s2, ok(y))), lambda s, e: R(s, err(e)))


@post('Result:map_err')
def _rme(I, fr, st, info, args, site):
    return r_or(I, st, args[0], lambda s, x: R(s, ok(x)), lambda s, e: I.then(I.call_value(fr, s, args[1], [e], site), lambda s2, y: R(s2, err(y))))


@post('Result:and_then')
def _rat(I, fr, st, info, args, site):
    return r_or(I, st, args[0], lambda s, x: I.call_value(fr, s, args[1], [x], site), lambda s, e: R(s, err(e)))


@post('Result:or_else')
def _roe(I, fr, st, info, args, site):
    return r_or(I, st, args[0], lambda s, x: R(s, ok(x)), lambda s, e: I.call_value(fr, s, args[1], [e], site))


@post('Result:ok')
def _rok(I, fr, st, info, args, site):
    return r_or(I, st, args[0], lambda s, x: R(s, some(x)), lambda s, e: R(s, NONE))


@post('Result:err')
def _rerr(I, fr, st, info, args, site):
    return r_or(I, st, args[0], lambda s, x: R(s, NONE), lambda s, e: R(s, some(e)))


# ---------------------------------------------------------------- conversions
IDT = ('Vec', 'String', 'Box', 'Rc', 'Arc', '&', '[]', '[;]', 'str', 'Cow', 'PathBuf', 'OsString', 'OsStr', 'Path', 'BString', 'BStr', 'GenericArray')


def conv(I, fr, st, x, src, dst, site):
    if src is not None and dst is not None:
        if src == dst:
            return R(st, x)
        callee = '<%r as std::convert::From<%r>>::from' % (dst, src)
        t = I.P.resolve(fr.crate, callee)
        if t is not None:
            return I.call_path(fr, st, callee, [x], site)
        if dst.n == 'Option' and src.n != 'Option':
            return R(st, some(x))
        if dst.n in IDT and src.n in IDT + ('char',):
            x = I.deref(st, x)
            if src.n == 'char' and x.op == 'i':
                x = bseq(chr(x.a[0]).encode())
            return R(st, x)
        if dst.n in MASK and src.n in MASK:
            return R(st, I.int_cast(x, dst.n, src.n))
        if dst.n == src.n and not dst.a:
            return R(st, x)
    if dst is not None and dst.n in ('Error', 'Box', 'dyn'):
        return R(st, app('anyhow', I.content(st, x)))
    if dst is not None and src is not None and dst.n == src.n:
        return R(st, x)
    return R(st, app('from:' + (dst.n if dst else '?'), I.content(st, x)))


@post('Into:into')
def _into(I, fr, st, info, args, site):
    return conv(I, fr, st, args[0], info.self_ty, info.trait.a[0] if info.trait.a else None, site)


@post('From:from')
def _from(I, fr, st, info, args, site):
    return conv(I, fr, st, args[0], info.trait.a[0] if info.trait.a else None, info.self_ty, site)


def strip_ref(t):
    while t is not None and t.n in ('&', '&mut') and t.a:
        t = t.a[0]
    return t


def tryconv(I, fr, st, x, src, dst, site):
    if src is not None and dst is not None:
        d = strip_ref(dst)
        if d.n == '[;]' and strip_ref(src).n in ('[]', 'Vec', 'Box', '[;]'):
            n = I.gen_const(d.a[1], 'N')
            v = I.deref(st, x)
            L = st.norm(length(v))
            r = []
            for k, s in I.fork_bool(st, eq(L, n)):
                r.append(Out('ret', ok(x if x.op == 'ref' and dst.n == '&mut' else v) if k else err(v), s))
            return r
        if d.n == 'ArrayVec' and len(d.a) == 2 and strip_ref(src).n in ('[]', '[;]'):
            v = I.deref(st, x)
            c = lt(I.gen_const(d.a[1], 'N'), length(v))
            return [Out('ret', err(app('CapacityError')) if k else ok(v), s) for k, s in I.fork_bool(st, c)]
        callee = '<%r as std::convert::TryFrom<%r>>::try_from' % (dst, src)
        if I.P.resolve(fr.crate, callee) is not None:
            return I.call_path(fr, st, callee, [x], site)
        if d.n in MASK and strip_ref(src).n in MASK:
            v = st.norm(x)
            if v.op == 'i':
                return R(st, ok(I_(v.a[0], d.n)) if in_range(v.a[0], d.n) else err(app('TryFromIntError')))
            c = app('ovf', v, d.n)
            return [Out('ret', err(app('TryFromIntError')) if k else ok(v), s) for k, s in I.fork_bool(st, c)]
    return R(st, app('call:try_from:%r' % (dst,), I.content(st, x)))


@post('TryInto:try_into')
def _tryinto(I, fr, st, info, args, site):
    return tryconv(I, fr, st, args[0], info.self_ty, info.trait.a[0] if info.trait.a else None, site)


@post('TryFrom:try_from')
def _tryfrom(I, fr, st, info, args, site):
    return tryconv(I, fr, st, args[0], info.trait.a[0] if info.trait.a else None, info.self_ty, site)


@post('str:parse')
def _parse(I, fr, st, info, args, site):
    t = rettype(info)
    v = I.content(st, args[0])
    if t is not None:
        callee = '<%r as std::str::FromStr>::from_str' % (t,)
        if I.P.resolve(fr.crate, callee) is not None:
            return I.call_path(fr, st, callee, [args[0]], site)
    if v.op == 'seq' and len(v.a) == 1 and v.a[0][0] == 's':
        v = v.a[0][1]
    if v.op == 'dec' and t is not None and v.a[1] == t.n:
        return R(st, ok(v.a[0]))
    if is_bytes(v) and t is not None and t.n in MASK:
        b = to_bytes(v)
        if re.fullmatch(rb'[+-]?\d+' if signed(t.n) else rb'\+?\d+', b):
            n = int(b)
            return R(st, ok(I_(n, t.n)) if in_range(n, t.n) else err(app('ParseIntError', v)))
        return R(st, err(app('ParseIntError', v)))
    if is_bytes(v) and t is not None and t.n == 'char':
        try:
            c = to_bytes(v).decode()
        except UnicodeDecodeError:
            return NotImplemented
        return R(st, ok(I_(ord(c), 'char')) if len(c) == 1 else err(app('ParseCharError', v)))
    return R(st, app('parse', v, repr(t)))


@post('FromStr:from_str')
def _fromstr(I, fr, st, info, args, site):
    return R(st, app('parse', I.content(st, args[0]), repr(info.self_ty)))


@post('str:from_utf8', 'String:from_utf8', 'str::from_utf8')
def _utf8(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    if is_bytes(v):
        try:
            to_bytes(v).decode('utf-8')
            return R(st, ok(v))
        except UnicodeDecodeError:
            return R(st, err(app('Utf8Error', v)))
    if st.byte_mask(v) >> 128 == 0:
        return R(st, ok(v))
    return [Out('ret', ok(v) if k else err(app('Utf8Error', v)), s) for k, s in I.fork_bool(st, app('is_utf8', v))]


for k in ('str:from_utf8_unchecked', 'str::from_utf8_unchecked', 'slice:from_ref#'):
    POST[k] = ident_deref


# ------------------------------------------------------------------- sequences
def nonempty_known(v):
    return v.op == 'seq' and any(k != 's' for k, _ in v.a)


def is_empty_t(st, v):
    if v.op == 'seq':
        if not v.a:
            return TRUE
        if nonempty_known(v):
            return FALSE
    return st.norm(eq(st.norm(length(v)), I_(0)))


def seqkeys(m):
    return ['%s:%s' % (b, m) for b in SEQB + ('BStr', 'BString', 'VecDeque', 'ArrayVec')]


@post(*seqkeys('len'))
def _len(I, fr, st, info, args, site):
    return R(st, st.norm(length(I.deref(st, args[0]))))


@post('mem:size_of_val')
def _sov(I, fr, st, info, args, site):
    return R(st, st.norm(length(I.deref(st, args[0]))))


@post(*seqkeys('is_empty'))
def _ise(I, fr, st, info, args, site):
    return R(st, is_empty_t(st, I.deref(st, args[0])))


@post(*seqkeys('first'), *seqkeys('first_mut'))
def _first(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    mut = info.method == 'first_mut' and target(I, st, args[0])
    r = []
    for k, s in I.fork_bool(st, is_empty_t(st, v)):
        if k:
            r.append(Out('ret', NONE, s))
        elif mut:
            r.append(Out('ret', some(T('ref', (mut[0], mut[1] + (('ix', I_(0)),)))), s))
        else:
            r.append(Out('ret', some(I.idx(s, v, I_(0))), s))
    return r


@post(*seqkeys('last'), *seqkeys('last_mut'))
def _last(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    mut = info.method == 'last_mut' and target(I, st, args[0])
    r = []
    for k, s in I.fork_bool(st, is_empty_t(st, v)):
        ix = s.norm(sub(s.norm(length(v)), I_(1)))
        if k:
            r.append(Out('ret', NONE, s))
        elif mut:
            r.append(Out('ret', some(T('ref', (mut[0], mut[1] + (('ix', ix),)))), s))
        else:
            r.append(Out('ret', some(last_of(I, s, v, ix)), s))
    return r


def last_of(I, s, v, ix):
    if v.op == 'seq' and v.a:
        k, x = v.a[-1]
        if k == 'b':
            return I_(x[-1], 'u8')
        if k == 'e':
            return x
    return I.idx(s, v, ix)


def range_of(I, st, r, n):
    """(lo, hi|None) of a range value; n = length"""
    r = I.deref(st, r)
    if r.op == 'adt':
        nm = r.a[0]
        f = r.a[2]
        if nm == 'Range':
            return f[0], f[1]
        if nm == 'RangeFrom':
            return f[0], None
        if nm == 'RangeTo':
            return I_(0), f[0]
        if nm == 'RangeFull':
            return I_(0), None
        if nm == 'RangeInclusive':
            return f[0], add(f[1], I_(1))
        if nm == 'RangeToInclusive':
            return I_(0), add(f[0], I_(1))
    if r.op == 'fn' or r.op == 'sym' and 'RangeFull' in str(r.a[0]):
        return I_(0), None
    return None


def check_range(I, fr, st, v, lo, hi, okf, badf):
    """split on lo<=hi<=len"""
    n = st.norm(length(v))
    lo = st.norm(lo)
    res = []
    if hi is None:
        for bad, s in I.fork_bool(st, lt(n, lo)):
            res += badf(s) if bad else okf(s, lo, None)
        return res
    hi = st.norm(hi)
    for bad, s in I.fork_bool(st, lt(hi, lo)):
        if bad:
            res += badf(s)
            continue
        for bad2, s2 in I.fork_bool(s, lt(n, hi)):
            res += badf(s2) if bad2 else okf(s2, lo, hi)
    return res


def slice_at(st, v, lo, hi):
    lo = st.norm(lo)
    if hi is not None:
        hi = st.norm(hi)
        if hi is st.norm(length(v)):
            hi = None
    r = mk_slice(v, lo, hi)
    return st.norm(r) if r.op == 'sl' else r


@post('Index:index', 'IndexMut:index_mut')
def _index(I, fr, st, info, args, site):
    mut = info.method == 'index_mut'
    v = I.deref(st, args[0])
    rg = range_of(I, st, args[1], None)
    tg = target(I, st, args[0]) if mut else None
    if rg is None:
        i = st.norm(args[1])
        n = st.norm(length(v))
        res = []
        for k, s in I.fork_bool(st, lt(i, n)):
            if not k:
                res += pan(I, fr, s, 'index out of bounds')
            elif tg is not None:
                res += R(s, T('ref', (tg[0], tg[1] + (('ix', s.norm(i)),))))
            else:
                res += R(s, I.idx(s, v, i))
        return res

    def okf(s, lo, hi):
        if tg is not None:
            if lo.op == 'i' and lo.a[0] == 0 and hi is None:
                return R(s, T('ref', tg))
            return R(s, T('ref', (tg[0], tg[1] + (('sl', lo, hi),))))
        return R(s, slice_at(s, v, lo, hi))
    return check_range(I, fr, st, v, rg[0], rg[1], okf, lambda s: pan(I, fr, s, 'slice range out of bounds'))


@post(*seqkeys('get'), *seqkeys('get_mut'))
def _get(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    rg = range_of(I, st, args[1], None)
    if rg is None:
        i = st.norm(args[1])
        tg = target(I, st, args[0]) if info.method == 'get_mut' else None
        return [Out('ret', (some(T('ref', (tg[0], tg[1] + (('ix', i),)))) if tg else some(I.idx(s, v, i))) if k else NONE, s)
                for k, s in I.fork_bool(st, lt(i, st.norm(length(v))))]
    return check_range(I, fr, st, v, rg[0], rg[1], lambda s, lo, hi: R(s, some(slice_at(s, v, lo, hi))), lambda s: R(s, NONE))


@post(*seqkeys('split_first'))
def _sf(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    return [Out('ret', NONE if k else some(tup(I.idx(s, v, I_(0)), slice_at(s, v, I_(1), None))), s) for k, s in I.fork_bool(st, is_empty_t(st, v))]


@post(*seqkeys('split_last'))
def _sl(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    r = []
    for k, s in I.fork_bool(st, is_empty_t(st, v)):
        if k:
            r += R(s, NONE)
        else:
            ix = s.norm(sub(s.norm(length(v)), I_(1)))
            r += R(s, some(tup(last_of(I, s, v, ix), slice_at(s, v, I_(0), ix))))
    return r


@post(*seqkeys('split_at'), *seqkeys('split_at_mut'))
def _sa(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    return split_at(I, fr, st, v, st.norm(args[1]))


def split_at(I, fr, st, v, n):
    r = []
    for bad, s in I.fork_bool(st, lt(st.norm(length(v)), n)):
        if bad:
            r += pan(I, fr, s, 'split_at out of bounds')
        else:
            r += R(s, tup(slice_at(s, v, I_(0), n), slice_at(s, v, n, None)))
    return r


@post(*seqkeys('split_array_ref'), *seqkeys('split_array_mut'))
def _sar(I, fr, st, info, args, site):
    n = I.gen_const(info.gen[0], 'N')
    return split_at(I, fr, st, I.deref(st, args[0]), n)


@post(*seqkeys('first_chunk'))
def _fc(I, fr, st, info, args, site):
    n = I.gen_const(info.gen[0], 'N')
    v = I.deref(st, args[0])
    return [Out('ret', NONE if bad else some(slice_at(s, v, I_(0), n)), s) for bad, s in I.fork_bool(st, lt(st.norm(length(v)), n))]


@post(*seqkeys('split_first_chunk'))
def _sfc(I, fr, st, info, args, site):
    n = I.gen_const(info.gen[0], 'N')
    v = I.deref(st, args[0])
    return [Out('ret', NONE if bad else some(tup(slice_at(s, v, I_(0), n), slice_at(s, v, n, None))), s)
            for bad, s in I.fork_bool(st, lt(st.norm(length(v)), n))]


@post(*seqkeys('copy_from_slice'), *seqkeys('clone_from_slice'))
def _cfs(I, fr, st, info, args, site):
    d, s_ = I.deref(st, args[0]), I.deref(st, args[1])
    r = []
    for k, s in I.fork_bool(st, eq(st.norm(length(d)), st.norm(length(s_)))):
        if not k:
            r += pan(I, fr, s, 'copy_from_slice length mismatch')
        else:
            store(I, s, args[0], s_)
            r += R(s, UNIT)
    return r


@post(*seqkeys('fill'))
def _fill(I, fr, st, info, args, site):
    d = I.deref(st, args[0])
    store(I, st, args[0], rep(args[1], st.norm(length(d))))
    return R(st, UNIT)


@post(*seqkeys('concat'))
def _concat(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    e = elems(v)
    if e is None:
        return R(st, app('concat', I.content(st, v)))
    return R(st, concat(*[I.deref(st, x) for x in e]))


def starts_with(I, st, v, p):
    """[(bool, state)]"""
    if is_bytes(p) and v.op == 'seq' and v.a and v.a[0][0] == 'b':
        n = min(len(to_bytes(p)), len(v.a[0][1]))
        if v.a[0][1][:n] != to_bytes(p)[:n]:
            return [(False, st)]
        if n == len(to_bytes(p)):
            return [(True, st)]
    if known_len(v) is not None and known_len(p) is not None and known_len(v) < known_len(p):
        return [(False, st)]
    if v.op == 'seq' and p.op == 'seq' and v.a[:len(p.a)] == p.a:
        return [(True, st)]
    if p is v:
        return [(True, st)]
    pl = known_len(p)
    if pl is not None and elems(v) is not None:
        return fork_eq(I, st, mk_slice(v, I_(0), I_(pl)), p)
    r = []
    for k, s in I.fork_bool(st, app('starts_with', v, p)):
        if k:
            # what starts with p is at least as long as p
            r += [(True, s2) for bad, s2 in I.fork_bool(s, lt(s.norm(length(v)), s.norm(length(p)))) if not bad]
        else:
            r.append((False, s))
    return r


@post(*seqkeys('starts_with'))
def _sw(I, fr, st, info, args, site):
    p = I.content(st, args[1])
    if p.op == 'i':
        p = eseq([p])
    return [Out('ret', B(k), s) for k, s in starts_with(I, st, I.content(st, args[0]), p)]


@post(*seqkeys('strip_prefix'))
def _strp(I, fr, st, info, args, site):
    v, p = I.content(st, args[0]), I.content(st, args[1])
    if p.op == 'i' and p.a[1] == 'char':
        p = bseq(chr(p.a[0]).encode())
    return [Out('ret', some(slice_at(s, v, length(p), None)) if k else NONE, s) for k, s in starts_with(I, st, v, p)]


def ends_with(I, st, v, p):
    vl, pl = known_len(v), known_len(p)
    if vl is not None and pl is not None:
        if vl < pl:
            return [(False, st)]
        if elems(v) is not None:
            return fork_eq(I, st, mk_slice(v, I_(vl - pl), I_(vl)), p)
    if v.op == 'seq' and p.op == 'seq' and p.a and v.a[-len(p.a):] == p.a or p is v:
        return [(True, st)]
    return I.fork_bool(st, app('ends_with', v, p))


def char_pat(p):
    return bseq(chr(p.a[0]).encode()) if p.op == 'i' and p.a[1] == 'char' else p


@post(*seqkeys('ends_with'))
def _ew(I, fr, st, info, args, site):
    return [Out('ret', B(k), s) for k, s in ends_with(I, st, I.content(st, args[0]), char_pat(I.content(st, args[1])))]


@post(*seqkeys('strip_suffix'))
def _strs(I, fr, st, info, args, site):
    v, p = I.content(st, args[0]), char_pat(I.content(st, args[1]))
    return [Out('ret', some(slice_at(s, v, I_(0), sub(length(v), length(p)))) if k else NONE, s) for k, s in ends_with(I, st, v, p)]


@post('String:new', 'Vec:new', 'Vec:with_capacity', 'String:with_capacity', 'VecDeque:new', 'HashSet:new')
def _vnew(I, fr, st, info, args, site):
    return R(st, EMPTY)


@post('Vec:push', 'VecDeque:push_back')
def _push(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    store(I, st, args[0], seq(('s', v), ('e', args[1])))
    return R(st, UNIT)


@post('Vec:reserve', 'String:reserve', 'Vec:shrink_to_fit')
def _noop(I, fr, st, info, args, site):
    return R(st, UNIT)


@post('Vec:extend_from_slice')
def _efs(I, fr, st, info, args, site):
    store(I, st, args[0], concat(I.deref(st, args[0]), I.deref(st, args[1])))
    return R(st, UNIT)


@post('Vec:append')
def _vapp(I, fr, st, info, args, site):
    store(I, st, args[0], concat(I.deref(st, args[0]), I.deref(st, args[1])))
    store(I, st, args[1], EMPTY)
    return R(st, UNIT)


@post('Vec:clear', 'String:clear')
def _vclr(I, fr, st, info, args, site):
    store(I, st, args[0], EMPTY)
    return R(st, UNIT)


@post('Vec:truncate', 'String:truncate')
def _vtr(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    r = []
    for k, s in I.fork_bool(st, lt(args[1], st.norm(length(v)))):
        if k:
            store(I, s, args[0], slice_at(s, v, I_(0), args[1]))
        r += R(s, UNIT)
    return r


@post('Vec:insert')
def _vins(I, fr, st, info, args, site):
    v, i = I.deref(st, args[0]), st.norm(args[1])
    r = []
    for bad, s in I.fork_bool(st, lt(st.norm(length(v)), i)):
        if bad:
            r += pan(I, fr, s, 'insert out of bounds')
        else:
            store(I, s, args[0], seq(('s', slice_at(s, v, I_(0), i)), ('e', args[2]), ('s', slice_at(s, v, i, None))))
            r += R(s, UNIT)
    return r


@post('Vec:remove')
def _vrm(I, fr, st, info, args, site):
    v, i = I.deref(st, args[0]), st.norm(args[1])
    r = []
    for k, s in I.fork_bool(st, lt(i, st.norm(length(v)))):
        if not k:
            r += pan(I, fr, s, 'remove out of bounds')
        else:
            store(I, s, args[0], concat(slice_at(s, v, I_(0), i), slice_at(s, v, add(i, I_(1)), None)))
            r += R(s, I.idx(s, v, i))
    return r


@post('Vec:pop')
def _vpop(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    r = []
    for k, s in I.fork_bool(st, is_empty_t(st, v)):
        if k:
            r += R(s, NONE)
            continue
        ix = s.norm(sub(s.norm(length(v)), I_(1)))
        x = last_of(I, s, v, ix)
        if v.op == 'seq' and v.a and v.a[-1][0] != 's':
            kk, y = v.a[-1]
            nv = seq(*(v.a[:-1] + ((('b', y[:-1]),) if kk == 'b' else ())))
        else:
            nv = slice_at(s, v, I_(0), ix)
        store(I, s, args[0], nv)
        r += R(s, some(x))
    return r


@post('String:push')
def _spush(I, fr, st, info, args, site):
    c = st.norm(args[1])
    if c.op == 'i':
        p = bseq(chr(c.a[0]).encode())
    elif c.op == 'cast' or True:
        p = seq(('s', app('chr', c)))
    store(I, st, args[0], concat(I.deref(st, args[0]), p))
    return R(st, UNIT)


@post('String:push_str')
def _spushs(I, fr, st, info, args, site):
    store(I, st, args[0], concat(I.deref(st, args[0]), I.content(st, args[1])))
    return R(st, UNIT)


@post('Extend:extend')
def _extend(I, fr, st, info, args, site):
    tgt = args[0]

    def step(s, acc, item):
        item = s.norm(item)
        if info.base == 'String':
            item = s.norm(I.content(s, item))
            item = bseq(chr(item.a[0]).encode()) if item.op == 'i' and (item.a[1] == 'char' or item.a[0] < 128) else eseq([item]) if item in U8 else item
        store(I, s, tgt, seq(('s', I.deref(s, tgt)), ('e', item)) if info.base != 'String' else concat(I.deref(s, tgt), item))
        return [('go', s, acc)]
    it = to_iter(I, st, args[1], info.gen[0] if info.gen else None)
    if it.op == 'iter' and it.a[0] == 'items' and info.base != 'String':
        store(I, st, tgt, concat(I.deref(st, tgt), it.a[1]))
        return R(st, UNIT)
    ends, stops, outs = drive(I, fr, st, it, UNIT, step, site)
    return outs + [Out('ret', UNIT, s) for s, a in ends]


@post('Vec:splice')
def _splice(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    rg = range_of(I, st, args[1], None)
    it = to_iter(I, st, args[2])
    new = None
    if it.op == 'iter' and it.a[0] == 'items':
        new = it.a[1]
    elif it.op == 'iter' and it.a[0] == 'take' and it.a[1].op == 'iter' and it.a[1].a[0] == 'repeat':
        new = rep(it.a[1].a[1], it.a[2])
    if rg is None or new is None:
        return NotImplemented

    def okf(s, lo, hi):
        mid = slice_at(s, v, lo, hi)
        store(I, s, args[0], concat(slice_at(s, v, I_(0), lo), new, slice_at(s, v, hi, None) if hi is not None else EMPTY))
        return R(s, T('iter', ('items', mid)))
    return check_range(I, fr, st, v, rg[0], rg[1], okf, lambda s: pan(I, fr, s, 'splice range'))


@post('Vec:try_reserve', 'Vec:try_reserve_exact', 'String:try_reserve')
def _tryres(I, fr, st, info, args, site):
    n = st.norm(args[1])
    lo, hi = (n.a[0], n.a[0]) if n.op == 'i' else st.bounds(n)
    if hi is not None and hi < 1 << 31:
        return R(st, ok(UNIT))
    if n.op == 'i' and n.a[0] >= 1 << 62:
        return R(st, err(app('TryReserveError', n)))
    return [Out('ret', ok(UNIT) if k else err(app('TryReserveError', n)), s) for k, s in I.fork_bool(st, app('alloc_ok', n))]


@post('Vec:resize')
def _resize(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    n = st.norm(length(v))
    r = []
    for k, s in I.fork_bool(st, lt(n, args[1])):
        if k:
            store(I, s, args[0], concat(v, rep(args[2], s.norm(sub(args[1], n)))))
        else:
            for shorter, s2 in I.fork_bool(s, lt(args[1], n)):
                if shorter:
                    store(I, s2, args[0], slice_at(s2, v, I_(0), args[1]))
                r += R(s2, UNIT)
            continue
        r += R(s, UNIT)
    return r


@post(*seqkeys('reverse'))
def _rev(I, fr, st, info, args, site):
    v = I.deref(st, args[0])
    e = elems(v)
    store(I, st, args[0], eseq(e[::-1]) if e is not None else app('reverse', v))
    return R(st, UNIT)


@post(*seqkeys('repeat'))
def _repeat(I, fr, st, info, args, site):
    v, n = I.content(st, args[0]), st.norm(args[1])
    if n.op == 'i' and n.a[0] <= 64:
        return R(st, concat(*[v] * n.a[0]))
    e = elems(v)
    if e is not None and len(e) == 1:
        return R(st, rep(e[0], n))
    return R(st, app('repeat', v, n))


@post('from_elem', 'vec:from_elem', 'vec::from_elem')
def _fe(I, fr, st, info, args, site):
    return R(st, rep(args[0], st.norm(args[1])))


@post('slice:from_ref', 'slice::from_ref')
def _sfr(I, fr, st, info, args, site):
    return R(st, eseq([I.deref(st, args[0])]))


@post(*seqkeys('contains'))
def _contains(I, fr, st, info, args, site):
    v, x = I.content(st, args[0]), I.content(st, args[1])
    e = elems(v)
    if e is None or info.base == 'str':
        return R(st, app('contains', v, x))
    cur, r = [st], []
    for y in e:
        nx = []
        for s in cur:
            for k, s2 in fork_eq(I, s, y, x):
                if k:
                    r += R(s2, TRUE)
                else:
                    nx.append(s2)
        cur = nx
    return r + [Out('ret', FALSE, s) for s in cur]


@post('RangeInclusive:new')
def _rin(I, fr, st, info, args, site):
    return R(st, adt('RangeInclusive', None, args[0], args[1]))


@post('RangeInclusive:contains', 'Range:contains', 'RangeFrom:contains', 'RangeTo:contains', 'RangeToInclusive:contains')
def _rcont(I, fr, st, info, args, site):
    r, x = I.content(st, args[0]), st.norm(I.content(st, args[1]))
    if r.op != 'adt':
        return NotImplemented
    nm, f = r.a[0], r.a[2]
    cs = []
    if nm in ('Range', 'RangeInclusive', 'RangeFrom'):
        cs.append(NOT(lt(x, f[0])))
    if nm in ('RangeInclusive', 'RangeToInclusive'):
        cs.append(NOT(lt(f[-1], x)))
    if nm in ('Range', 'RangeTo'):
        cs.append(lt(x, f[-1]))
    cur, res = [st], []
    for c in cs:
        nx = []
        for s in cur:
            for k, s2 in I.fork_bool(s, c):
                if k:
                    nx.append(s2)
                else:
                    res += R(s2, FALSE)
        cur = nx
    return res + [Out('ret', TRUE, s) for s in cur]


# ----------------------------------------------------------------- comparisons
def fork_eq(I, st, a, b, d=0):
    a, b = st.norm(I.deref(st, a)), st.norm(I.deref(st, b))
    if a is b:
        return [(True, st)]
    if a.op == 'i' and b.op == 'i':
        return [(a.a[0] == b.a[0], st)]
    if b.op == 'adt' and a.op != 'adt':
        a, b = b, a
    if a.op == 'adt' and b.op == 'adt':
        if a.a[1] != b.a[1] or a.a[1] is None and a.a[0] != b.a[0]:
            return [(False, st)]        # of one type, so different names are different variants of a foreign enum
        return fork_all(I, st, list(zip(a.a[2], b.a[2])), d)
    if a.op == 'adt':
        if a.a[1] is not None and not any(nm == a.a[1] for nm, n in I.P.variants(a.a[0]) or []):
            return I.fork_bool(st, eq(a, b))
        if a.a[1] is not None:
            r = []
            for nm, n in I.P.variants(a.a[0]) or []:
                if nm == a.a[1]:
                    for k, s in I.fork_bool(st, eq(app('discr', b), I_(n, 'isize'))):
                        if not k:
                            r.append((False, s))
                        else:
                            r += fork_all(I, s, [(x, I.field(b, i, nm)) for i, x in enumerate(a.a[2])], d)
                    return r
        return fork_all(I, st, [(x, I.field(b, i)) for i, x in enumerate(a.a[2])], d)
    if a.op == 'tup' and b.op == 'tup':
        return fork_all(I, st, list(zip(a.a, b.a)), d)
    if a.op == 'seq' or b.op == 'seq':
        ea, eb = elems(a), elems(b)
        if ea is not None and eb is not None:
            if len(ea) != len(eb):
                return [(False, st)]
            return fork_all(I, st, list(zip(ea, eb)), d)
        pa, pb = list(a.a) if a.op == 'seq' else [('s', a)], list(b.a) if b.op == 'seq' else [('s', b)]
        while pa and pb and pa[0] == pb[0]:
            pa, pb = pa[1:], pb[1:]
        while pa and pb and pa[-1] == pb[-1]:
            pa, pb = pa[:-1], pb[:-1]
        for x, y in ((pa, pb), (pb, pa)):
            if x and y and x[0][0] == 'b' and y[0][0] == 'b':
                n = min(len(x[0][1]), len(y[0][1]))
                if x[0][1][:n] != y[0][1][:n]:
                    return [(False, st)]
        a, b = seq(*pa), seq(*pb)
        if not pa or not pb:
            return I.fork_bool(st, is_empty_t(st, b if not pa else a))
        la, lb = st.norm(length(a)), st.norm(length(b))
        df = sub(la, lb)
        if df.op == 'i' and df.a[0] != 0:
            return [(False, st)]
        if la.op == 'i' and lb.op != 'i' or lb.op == 'i' and la.op != 'i':
            if st.decide(eq(la, lb)) is False:
                return [(False, st)]
            # split the opaque side into elements once its length is fixed
        if is_bytes(a) or b.op != 'seq' and a.op == 'seq':
            a, b = b, a
        t = app('Eq', a, b)
        dcd = st.decide(t)
        if dcd is not None:
            return [(dcd, st)]
        o = st.copy()
        r = []
        st.facts[t] = ('=', TRUE)
        if a.op != 'seq' and is_bytes(b):
            st.facts[a] = ('=', b)
        kl = known_len(b)
        good = True
        if kl is not None and a.op != 'seq' and length(a).op != 'i':
            good = st.assume(length(a), I_(kl))
        if good and not st.dead:
            r.append((True, st))
        o.facts[t] = ('=', FALSE)
        r.append((False, o))
        return r
    return I.fork_bool(st, eq(a, b))


def fork_all(I, st, pairs, d):
    cur, r = [st], []
    for x, y in pairs:
        nx = []
        for s in cur:
            for k, s2 in fork_eq(I, s, x, y, d + 1):
                if k:
                    nx.append(s2)
                else:
                    r.append((False, s2))
        cur = nx
    return r + [(True, s) for s in cur]


@post('PartialEq:eq')
def _eq(I, fr, st, info, args, site):
    return [Out('ret', B(k), s) for k, s in fork_eq(I, st, I.content(st, args[0]), I.content(st, args[1]))]


@post('PartialEq:ne')
def _ne(I, fr, st, info, args, site):
    return [Out('ret', B(not k), s) for k, s in fork_eq(I, st, I.content(st, args[0]), I.content(st, args[1]))]


def _cmp(f):
    def m(I, fr, st, info, args, site):
        a, b = st.norm(I.deref(st, args[0])), st.norm(I.deref(st, args[1]))
        if info.base not in INTS and info.base != 'char':
            return NotImplemented
        return R(st, I.cmp_norm(st, f(a, b)))
    return m


POST['PartialOrd:lt'] = _cmp(lambda a, b: lt(a, b))
POST['PartialOrd:gt'] = _cmp(lambda a, b: lt(b, a))
POST['PartialOrd:le'] = _cmp(lambda a, b: NOT(lt(b, a)))
POST['PartialOrd:ge'] = _cmp(lambda a, b: NOT(lt(a, b)))


@pre('Level:PartialOrd:le')
def _lvl(I, fr, st, info, args, site):
    return R(st, FALSE)


@post('Ord:cmp', 'PartialOrd:partial_cmp')
def _ocmp(I, fr, st, info, args, site):
    a, b = st.norm(I.content(st, args[0])), st.norm(I.content(st, args[1]))
    w = (lambda x: some(x)) if info.method == 'partial_cmp' else (lambda x: x)
    if info.base in INTS:
        r = []
        for k, s in I.fork_bool(st, lt(a, b)):
            if k:
                r += R(s, w(adt('Ordering', 'Less')))
            else:
                for k2, s2 in I.fork_bool(s, eq(a, b)):
                    r += R(s2, w(adt('Ordering', 'Equal' if k2 else 'Greater')))
        return r
    return R(st, w(app('cmp', a, b)))


@post('Ord:max', 'Ord:min')
def _max(I, fr, st, info, args, site):
    a, b = st.norm(args[0]), st.norm(args[1])
    if a.op == 'i' and b.op == 'i':
        return R(st, a if (a.a[0] > b.a[0]) == (info.method == 'max') else b)
    r = []
    for k, s in I.fork_bool(st, lt(a, b)):
        r += R(s, (b if k else a) if info.method == 'max' else (a if k else b))
    return r


@post('Ord:clamp')
def _clamp(I, fr, st, info, args, site):
    x, lo, hi = [st.norm(a) for a in args]
    r = []
    for k, s in I.fork_bool(st, lt(x, lo)):
        if k:
            r += R(s, lo)
        else:
            for k2, s2 in I.fork_bool(s, lt(hi, x)):
                r += R(s2, hi if k2 else x)
    return r


# ---------------------------------------------------------------------- integers
def nbytes(ty):
    return MASK[ty] // 8


def mk_to(e, x, ty):
    n = nbytes(ty)
    if x.op == 'i':
        b = (x.a[0] & ((1 << MASK[ty]) - 1)).to_bytes(n, 'big' if e == 'be' else 'little')
        return bseq(b)
    if x.op == 'from_' + e and x.a[1] == ty:
        return x.a[0]
    if ty == 'u8':
        return eseq([x])
    return app('to_' + e, x, ty)


def mk_from(e, x, ty):
    if is_bytes(x) and known_len(x) == nbytes(ty):
        return I_(int.from_bytes(to_bytes(x), 'big' if e == 'be' else 'little'), ty)
    if x.op == 'to_' + e and x.a[1] == ty:
        return x.a[0]
    e1 = elems(x)
    if ty == 'u8' and e1 is not None and len(e1) == 1:
        return e1[0]
    return app('from_' + e, x, ty)


def _arith(I, fr, st, op, x, y, ty, outs):
    """the operator form called as a trait method: overflow is a panic, as in the built-in form"""
    t = I.binop(st, 'Checked' + op, x, y, ty)
    for k, s in I.fork_bool(st, t.a[1]):
        if k:
            pan(I, fr, s, 'attempt to %s with overflow' % {'Add': 'add', 'Sub': 'subtract', 'Mul': 'multiply'}[op], outs)
        else:
            yield t.a[0], s


for _ty in INTS:
    for _e, _k in (('be', 'be'), ('le', 'le'), ('ne', 'le')):
        def _f(I, fr, st, info, args, site, e=_k, ty=_ty):
            return R(st, mk_to(e, st.norm(I.deref(st, args[0])), ty))

        def _g(I, fr, st, info, args, site, e=_k, ty=_ty):
            return R(st, mk_from(e, st.norm(I.deref(st, args[0])), ty))
        POST['%s:to_%s_bytes' % (_ty, _e)] = _f
        POST['%s:from_%s_bytes' % (_ty, _e)] = _g
    for _m in ('saturating_add', 'saturating_sub', 'saturating_mul', 'pow', 'rotate_left', 'leading_zeros', 'div_ceil', 'abs_diff', 'unsigned_abs',
               'swap_bytes', 'to_be', 'from_be', 'to_le', 'from_le', 'reverse_bits', 'is_power_of_two', 'count_ones', 'abs'):
        def _h(I, fr, st, info, args, site, m=_m, ty=_ty):
            xs = [st.norm(I.deref(st, a)) for a in args]
            if m in ('saturating_add', 'saturating_sub') and all(x.op == 'i' for x in xs):
                v = xs[0].a[0] + (xs[1].a[0] if m.endswith('add') else -xs[1].a[0])
                lo, hi = (0, (1 << MASK[ty]) - 1) if not signed(ty) else (-(1 << MASK[ty] - 1), (1 << MASK[ty] - 1) - 1)
                return R(st, I_(min(max(v, lo), hi), ty))
            if m in ('div_ceil', 'abs_diff', 'saturating_mul', 'leading_zeros', 'count_ones', 'is_power_of_two') and all(x.op == 'i' for x in xs) and not signed(ty):
                a, b = [x.a[0] for x in xs + xs][:2]
                if m == 'div_ceil' and b == 0:
                    out = []
                    pan(I, fr, st, 'attempt to divide by zero', out)
                    return out
                if m == 'is_power_of_two':
                    return R(st, B(a > 0 and a & (a - 1) == 0))
                if m in ('leading_zeros', 'count_ones'):
                    return R(st, I_(MASK[ty] - a.bit_length() if m == 'leading_zeros' else bin(a).count('1'), 'u32'))
                return R(st, I_(-(-a // b) if m == 'div_ceil' else abs(a - b) if m == 'abs_diff' else min(a * b, (1 << MASK[ty]) - 1), ty))
            if m in ('to_le', 'from_le'):
                return R(st, xs[0])
            if m in ('to_be', 'from_be', 'swap_bytes'):
                if xs[0].op == 'i':
                    n = nbytes(ty)
                    return R(st, I_(int.from_bytes((xs[0].a[0] & ((1 << 8 * n) - 1)).to_bytes(n, 'big'), 'little'), ty))
                if xs[0].op == 'bswap' and xs[0].a[1] == ty:
                    return R(st, xs[0].a[0])
                return R(st, app('bswap', xs[0], ty))
            if m == 'pow' and all(x.op == 'i' for x in xs):
                v = xs[0].a[0] ** xs[1].a[0]
                return R(st, I_(wrap(v, ty), ty))
            return R(st, app(m, *(xs + [ty])))
        POST['%s:%s' % (_ty, _m)] = _h

    def _wr(I, fr, st, info, args, site, ty=_ty):
        op = {'wrapping_add': 'Add', 'wrapping_sub': 'Sub', 'wrapping_mul': 'Mul'}[info.method]
        v = I.binop(st, op, st.norm(args[0]), st.norm(args[1]), ty)
        return R(st, v if v.op == 'i' else app('wrap', v, ty))

    def _ck(I, fr, st, info, args, site, ty=_ty):
        op = {'checked_add': 'CheckedAdd', 'checked_sub': 'CheckedSub', 'checked_mul': 'CheckedMul'}[info.method]
        t = I.binop(st, op, st.norm(args[0]), st.norm(args[1]), ty)
        r = []
        for k, s in I.fork_bool(st, t.a[1]):
            if op == 'CheckedSub' and not signed(ty) and not (args[1].op == 'i' and args[1].a[0] < 2):
                # an unsigned difference exists exactly when the first number is not the smaller one
                r += [Out('ret', NONE if k else some(t.a[0]), s2)
                      for k2, s2 in I.fork_bool(s, lt(s.norm(args[0]), s.norm(args[1]))) if k2 == k]
            else:
                r.append(Out('ret', NONE if k else some(t.a[0]), s))
        return r

    def _ov(I, fr, st, info, args, site, ty=_ty):
        op = {'overflowing_add': 'CheckedAdd', 'overflowing_sub': 'CheckedSub'}[info.method]
        t = I.binop(st, op, st.norm(args[0]), st.norm(args[1]), ty)
        v = t.a[0]
        return [Out('ret', tup(app('wrap', v, ty) if k and v.op != 'i' else v, B(k)), s) for k, s in I.fork_bool(st, t.a[1])]

    def _cd(I, fr, st, info, args, site, ty=_ty):
        a, b = st.norm(args[0]), st.norm(args[1])
        r = []
        for k, s in I.fork_bool(st, eq(b, I_(0, ty))):
            r += R(s, NONE) if k else R(s, some(I.binop(s, 'Div' if info.method == 'checked_div' else 'Rem', a, b, ty)))
        return r
    for _m in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        POST['%s:%s' % (_ty, _m)] = _wr
    for _m in ('checked_add', 'checked_sub', 'checked_mul'):
        POST['%s:%s' % (_ty, _m)] = _ck
    for _m in ('overflowing_add', 'overflowing_sub'):
        POST['%s:%s' % (_ty, _m)] = _ov
    for _m in ('checked_div', 'checked_rem'):
        POST['%s:%s' % (_ty, _m)] = _cd

    def _mx(I, fr, st, info, args, site, ty=_ty):
        return R(st, I_((1 << MASK[ty]) - 1 if not signed(ty) else (1 << MASK[ty] - 1) - 1, ty))
    POST['%s:max_value' % _ty] = _mx
    for _tr, _op in (('BitAnd:bitand', 'BitAnd'), ('BitOr:bitor', 'BitOr'), ('BitXor:bitxor', 'BitXor'),
                     ('Add:add', 'Add'), ('Sub:sub', 'Sub'), ('Mul:mul', 'Mul')):
        def _bo(I, fr, st, info, args, site, op=_op, ty=_ty, assign=False):
            x, y = st.norm(I.deref(st, args[0])), st.norm(I.deref(st, args[1]))
            outs = []
            for v, s in ([(I.binop(st, op, x, y, ty), st)] if op.startswith('Bit') else _arith(I, fr, st, op, x, y, ty, outs)):
                if assign:
                    store(I, s, args[0], v)
                outs += R(s, UNIT if assign else v)
            return outs

        def _ba(I, fr, st, info, args, site, f=_bo):
            return f(I, fr, st, info, args, site, assign=True)
        POST['%s:%s' % (_ty, _tr)] = _bo
        POST['%s:%s' % (_ty, _tr.replace(':', 'Assign:') + '_assign')] = _ba

    def _nt(I, fr, st, info, args, site, ty=_ty):
        x = st.norm(I.deref(st, args[0]))
        return R(st, I_(wrap(~x.a[0], ty), ty) if x.op == 'i' else app('bnot', x))
    POST['%s:Not:not' % _ty] = _nt
    for _m in ('is_ascii', 'is_ascii_digit', 'is_ascii_graphic', 'is_ascii_whitespace', 'is_ascii_control', 'is_ascii_uppercase',
               'is_ascii_lowercase', 'is_ascii_alphabetic', 'is_ascii_alphanumeric', 'is_ascii_punctuation', 'is_ascii_hexdigit'):
        pass

CLS = {
    'is_ascii': lambda c: c < 128, 'is_ascii_digit': lambda c: 48 <= c <= 57, 'is_ascii_graphic': lambda c: 33 <= c <= 126,
    'is_ascii_whitespace': lambda c: c in (32, 9, 10, 12, 13), 'is_ascii_control': lambda c: c < 32 or c == 127,
    'is_ascii_uppercase': lambda c: 65 <= c <= 90, 'is_ascii_lowercase': lambda c: 97 <= c <= 122,
    'is_ascii_alphabetic': lambda c: 65 <= c <= 90 or 97 <= c <= 122,
    'is_ascii_alphanumeric': lambda c: 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57,
    'is_ascii_punctuation': lambda c: 33 <= c <= 126 and not chr(c).isalnum(),
    'is_ascii_hexdigit': lambda c: chr(c) in '0123456789abcdefABCDEF',
}
for _m, _fn in CLS.items():
    EVAL['u8.' + _m] = (lambda fn: lambda t, env: int(fn(ev(t.a[0], env))))(_fn)

    def _cl(I, fr, st, info, args, site, m=_m):
        x = st.norm(I.deref(st, args[0]))
        U8.add(x)
        if x.op == 'i':
            return R(st, B(CLS[m](x.a[0])))
        return R(st, app('u8.' + m, x))
    POST['u8:' + _m] = _cl


@post('array:from_fn', 'array::from_fn')
def _afn(I, fr, st, info, args, site):
    n = None
    for g in info.gen:
        m = re.match(r'(\d+)(_usize)?$', g.n)
        if m:
            n = int(m.group(1))
    if n is None or n > 64:
        return NotImplemented
    cur = [(st, [])]
    outs = []
    for i in range(n):
        nx = []
        for s, xs in cur:
            for o in I.call_value(fr, s, args[0], [I_(i)], site):
                if o.kind == 'ret':
                    nx.append((o.st, xs + [o.v]))
                else:
                    outs.append(o)
        cur = nx
    return outs + [Out('ret', eseq(xs), s) for s, xs in cur]


# --------------------------------------------------------------------- iterators
def IT(*a):
    return T('iter', a)


def own_next(I, name):
    """a struct of the analysed crates that implements Iterator (itself or behind a shared reference)"""
    return any(I.P.resolve('abe', '<%s%s as std::iter::Iterator>::next' % (r, name)) is not None for r in ('', '&'))


def to_iter(I, st, v, ty=None):
    v0 = v
    if v.op == 'ref':
        x = I.deref(st, v)
        if x.op == 'iter':
            return v
        if x.op == 'adt' and (x.a[0] in ('Range', 'RangeInclusive') or I.P.variants(x.a[0]) is None and own_next(I, x.a[0])):
            return v
        tg = target(I, st, v)
        return IT('itermut', T('ref', tg), I_(0))
    if v.op == 'iter':
        return v
    if v.op == 'adt':
        if v.a[0] == 'Range':
            return IT('range', v.a[2][0], v.a[2][1])
        if v.a[0] == 'RangeInclusive':
            return IT('rangei', v.a[2][0], v.a[2][1])
        if v.a[0] == 'RangeFrom':
            return IT('range', v.a[2][0], I_((1 << 64) - 1))
        if v.a[0] == 'Option':
            return IT('items', eseq(v.a[2]))
        if I.P.variants(v.a[0]) is None:
            return IT('local', v)
    if ty is not None and strip_ref(ty).n == 'Option':
        return IT('optional', v)
    return IT('items', v)


def nxt(I, fr, st, it, site, outs, base=None):
    """one step -> [(state, iterator', item | None | SKIP)]"""
    if it.op == 'ref':
        tg = target(I, st, it)
        x = I.get(st, tg[0], tg[1])
        x = to_iter(I, st, x)
        r = []
        own = x.op == 'iter' and x.a[0] == 'local' and I.get(st, tg[0], tg[1]) is x.a[1]
        for s, i2, e in nxt(I, fr, st, x, site, outs):
            I.put(s, tg[0], tg[1], i2.a[1] if own and i2.a[0] == 'local' else i2)
            r.append((s, it, e))
        return r
    if it.op != 'iter':
        return nxt(I, fr, st, to_iter(I, st, it), site, outs)
    k = it.a[0]
    if k == 'items':
        v = expand(st.norm(it.a[1]))
        if v.op == 'seq' and v.a and v.a[0][0] != 's':
            return [(st, IT('items', mk_slice(v, I_(1), None)), I.idx(st, v, I_(0)))]
        if v.op == 'rep' or v.op != 'seq' or v.a:
            if v.op == 'seq':
                h, rest = v.a[0][1], seq(*v.a[1:])
            else:
                h, rest = v, EMPTY
            r = []
            for emp, s in I.fork_bool(st, is_empty_t(st, h)):
                if emp:
                    if rest is EMPTY:
                        r.append((s, IT('items', EMPTY), None))
                    else:
                        r += nxt(I, fr, s, IT('items', rest), site, outs)
                else:
                    r.append((s, IT('items', concat(slice_at(s, h, I_(1), None), rest)), I.idx(s, h, I_(0))))
            return r
        return [(st, it, None)]
    if k == 'optional':
        return [(s, IT('items', EMPTY), x) for s, x in I.opt(st, it.a[1])]
    if k == 'itermut':
        ref, pos = it.a[1], st.norm(it.a[2])
        v = I.get(st, ref.a[0], ref.a[1])
        r = []
        for kk, s in I.fork_bool(st, lt(pos, st.norm(length(v)))):
            if kk:
                r.append((s, IT('itermut', ref, s.norm(add(pos, I_(1)))), T('ref', (ref.a[0], ref.a[1] + (('ix', pos),)))))
            else:
                r.append((s, it, None))
        return r
    if k == 'range':
        lo, hi = st.norm(it.a[1]), st.norm(it.a[2])
        r = []
        for kk, s in I.fork_bool(st, lt(lo, hi)):
            if kk:
                r.append((s, IT('range', add(lo, I_(1, lo.a[1] if lo.op == 'i' else 'usize')), hi), lo))
            else:
                r.append((s, it, None))
        return r
    if k == 'rangei':
        lo, hi = st.norm(it.a[1]), st.norm(it.a[2])
        r = []
        for bad, s in I.fork_bool(st, lt(hi, lo)):
            if bad:
                r.append((s, it, None))
            else:
                r.append((s, IT('rangei', add(lo, I_(1, lo.a[1] if lo.op == 'i' else 'usize')), hi), lo))
        return r
    if k == 'rev':
        return nxt_back(I, fr, st, it.a[1], site, outs)
    if k == 'map':
        r = []
        for s, i2, e in nxt(I, fr, st, it.a[1], site, outs):
            j = IT('map', i2, it.a[2])
            if e is None or e is SKIP:
                r.append((s, j, e))
                continue
            for f2, o in call_iter_fn(I, fr, s, it.a[2], [e], site):
                if o.kind == 'ret':
                    r.append((o.st, IT('map', i2, f2), o.v))
                else:
                    outs.append(o)
        return r
    if k in ('filter', 'filter_map', 'map_while', 'take_while', 'inspect'):
        r = []
        for s, i2, e in nxt(I, fr, st, it.a[1], site, outs):
            j = IT(k, i2, it.a[2])
            if e is None or e is SKIP:
                r.append((s, j, e))
                continue
            for f2, o in call_iter_fn(I, fr, s, it.a[2], [e], site):
                if o.kind != 'ret':
                    outs.append(o)
                    continue
                j = IT(k, i2, f2)
                if k == 'inspect':
                    r.append((o.st, j, e))
                elif k in ('filter', 'take_while'):
                    for b, s2 in I.fork_bool(o.st, o.v):
                        r.append((s2, j, e if b else (SKIP if k == 'filter' else None)))
                else:
                    for s2, x in I.opt(o.st, o.v):
                        r.append((s2, j, x if x is not None else (SKIP if k == 'filter_map' else None)))
        return r
    if k == 'zip':
        r = []
        for s, a2, x in nxt(I, fr, st, it.a[1], site, outs):
            if x is None or x is SKIP:
                r.append((s, IT('zip', a2, it.a[2]), x))
                continue
            for s2, b2, y in pull(I, fr, s, it.a[2], site, outs):
                r.append((s2, IT('zip', a2, b2), None if y is None else tup(x, y)))
        return r
    if k == 'chain':
        r = []
        for s, a2, x in nxt(I, fr, st, it.a[1], site, outs):
            if x is None:
                r += nxt(I, fr, s, it.a[2], site, outs)
            else:
                r.append((s, IT('chain', a2, it.a[2]), x))
        return r
    if k == 'from_fn':
        r = []
        for f2, o in call_iter_fn(I, fr, st, it.a[1], [], site):
            if o.kind != 'ret':
                outs.append(o)
                continue
            for s, x in I.opt(o.st, o.v):
                r.append((s, IT('from_fn', f2), x))
        return r
    if k == 'repeat':
        return [(st, it, it.a[1])]
    if k == 'take':
        n = st.norm(it.a[2])
        r = []
        for z, s in I.fork_bool(st, eq(n, I_(0))):
            if z:
                r.append((s, it, None))
                continue
            for s2, i2, x in nxt(I, fr, s, it.a[1], site, outs):
                r.append((s2, IT('take', i2, n if x is SKIP else s2.norm(sub(n, I_(1)))), x))
        return r
    if k == 'skip':
        n = st.norm(it.a[2])
        if n.op == 'i':
            if n.a[0] == 0:
                return nxt(I, fr, st, it.a[1], site, outs)
            r = []
            for s, i2, x in nxt(I, fr, st, it.a[1], site, outs):
                if x is None:
                    r.append((s, i2, None))
                else:
                    r += nxt(I, fr, s, IT('skip', i2, n if x is SKIP else I_(n.a[0] - 1)), site, outs)
            return r
    if k == 'enumerate':
        r = []
        for s, i2, x in nxt(I, fr, st, it.a[1], site, outs):
            if x is None or x is SKIP:
                r.append((s, IT('enumerate', i2, it.a[2]), x))
            else:
                r.append((s, IT('enumerate', i2, s.norm(add(it.a[2], I_(1)))), tup(it.a[2], x)))
        return r
    if k == 'peek':
        sl = it.a[2]
        if sl.op == 'adt':
            x = sl.a[2][0]
            return [(s, IT('peek', it.a[1], sym('nopeek')), y) for s, y in I.opt(st, x)]
        return [(s, IT('peek', i2, sym('nopeek')), x) for s, i2, x in nxt(I, fr, st, it.a[1], site, outs)]
    if k == 'flat':
        r = []
        cur = it.a[1]
        if cur.op == 'iter' or cur.op == 'ref':
            for s, c2, x in nxt(I, fr, st, cur, site, outs):
                r.append((s, IT('flat', sym('nocur') if x is None else c2, it.a[2], it.a[3]), SKIP if x is None else x))
            return r
        if cur.op != 'sym':
            raise Unsupported('flat_map inside a summarised loop')
        for s, i2, e in nxt(I, fr, st, it.a[2], site, outs):
            if e is None or e is SKIP:
                r.append((s, IT('flat', cur, i2, it.a[3]), e))
                continue
            if it.a[3].op == 'sym':
                r.append((s, IT('flat', to_iter(I, s, e), i2, it.a[3]), SKIP))
                continue
            for f2, o in call_iter_fn(I, fr, s, it.a[3], [e], site):
                if o.kind != 'ret':
                    outs.append(o)
                else:
                    r.append((o.st, IT('flat', to_iter(I, o.st, o.v), i2, f2), SKIP))
        return r
    if k in ('chunks', 'chunks_exact'):
        v, n = st.norm(it.a[1]), st.norm(it.a[2])
        r = []
        L = st.norm(length(v))
        for small, s in I.fork_bool(st, lt(L, n)):
            if not small:
                r.append((s, IT(k, slice_at(s, v, n, None), n), slice_at(s, v, I_(0), n)))
            elif k == 'chunks_exact':
                r.append((s, it, None))
            else:
                for e, s2 in I.fork_bool(s, is_empty_t(s, v)):
                    r.append((s2, IT(k, EMPTY, n), None if e else v))
        return r
    if k == 'windows':
        v, n = st.norm(it.a[1]), st.norm(it.a[2])
        r = []
        for small, s in I.fork_bool(st, lt(st.norm(length(v)), n)):
            if small:
                r.append((s, it, None))
            else:
                r.append((s, IT(k, slice_at(s, v, I_(1), None), n), slice_at(s, v, I_(0), n)))
        return r
    if k == 'split':
        # slice::split(pred) / str::split(char)
        v, f = st.norm(it.a[1]), it.a[2]
        r = []
        for over, s in I.fork_bool(st, st.norm(it.a[3])):
            if over:
                r.append((s, it, None))
                continue
            for s2, pos in scan_delim(I, fr, s, v, f, site, outs):
                if pos is None:
                    r.append((s2, IT('split', EMPTY, f, TRUE), v))
                else:
                    r.append((s2, IT('split', pos[1], f, FALSE), pos[0]))
        return r
    if k == 'local':
        v = it.a[1]
        cell = ('itl', fr.depth, site[1] if site else 0)
        st.cells[cell] = v
        for callee in ('<%s as std::iter::Iterator>::next' % v.a[0], '<&%s as std::iter::Iterator>::next' % v.a[0], None):
            if callee and I.P.resolve(fr.crate, callee) is not None:
                break
        if callee:
            r = []
            for o in I.call_path(fr, st, callee, [T('ref', (cell, ()))], site):
                if o.kind != 'ret':
                    outs.append(o)
                    continue
                nv = o.st.cells.pop(cell)
                for s, x in I.opt(o.st, o.v):
                    r.append((s, IT('local', nv), x))
            return r
    raise Unsupported('iterator ' + str(k))


def scan_delim(I, fr, st, v, f, site, outs, last=False):
    """first (last) delimiter of v -> [(state, None | (before, after))]; f: char/byte constant or predicate"""
    if f.op == 'seq' and is_bytes(f) and known_len(f) == 1:
        f = I_(to_bytes(f)[0], 'u8')
    ps = []
    for k, x in (v.a if v.op == 'seq' else (('s', v),)):
        if k == 'b':
            ps += [('e', I_(c, 'u8')) for c in x]
        else:
            ps.append((k, x))
    order = range(len(ps) - 1, -1, -1) if last else range(len(ps))
    cur, r = [st], []
    for i in order:
        k, x = ps[i]
        before, after = seq(*ps[:i]), seq(*ps[i + 1:])
        nx = []
        for s in cur:
            if k == 'e':
                if f.op == 'i':
                    br = fork_eq(I, s, x, I_(f.a[0], 'u8'))
                else:
                    br = []
                    for o in I.call_value(fr, s, f, [x], site):
                        if o.kind != 'ret':
                            outs.append(o)
                        else:
                            br += I.fork_bool(o.st, o.v)
                for hit, s2 in br:
                    if hit:
                        r.append((s2, (before, after)))
                    else:
                        nx.append(s2)
            elif x.op in ('dec', 'b64'):
                if f.op != 'i' or chr(f.a[0]) in '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ+/-_=' and x.op == 'b64' \
                        or chr(f.a[0]) in '0123456789':
                    for has, s2 in I.fork_bool(s, app('has', x, f)):
                        if has:
                            r.append((s2, (concat(before, app('until', x, f)), concat(app('after', x, f), after))))
                        else:
                            nx.append(s2)
                else:
                    nx.append(s)
            else:
                sfx = '_last' if last else ''
                for has, s2 in I.fork_bool(s, app('has', x, f)):
                    if has:
                        r.append((s2, (concat(before, app('until' + sfx, x, f)), concat(app('after' + sfx, x, f), after))))
                    else:
                        nx.append(s2)
        cur = nx
    return r + [(s, None) for s in cur]


@post('str:split_once', 'str:rsplit_once')
def _splitonce(I, fr, st, info, args, site):
    outs = []
    f = I.content(st, args[1])
    if f.op == 'seq' and known_len(f) != 1:
        return NotImplemented
    rs = scan_delim(I, fr, st, I.content(st, args[0]), f, site, outs, info.method == 'rsplit_once')
    return outs + [Out('ret', NONE if p is None else some(tup(*p)), s) for s, p in rs]


def call_iter_fn(I, fr, st, f, args, site):
    """call a closure stored inside an iterator; -> [(closure', Out)]"""
    if f.op == 'clo':
        cell = ('itf', fr.depth, site[1] if site else 0, f.a[0])
        st.cells[cell] = f
        r = []
        for o in I.call_value(fr, st, T('ref', (cell, ())), args, site):
            nf = o.st.cells.pop(cell, f)
            r.append((nf, o))
        return r
    return [(f, o) for o in I.call_value(fr, st, f, args, site)]


def nxt_back(I, fr, st, it, site, outs):
    if it.op != 'iter':
        it = to_iter(I, st, it)
    k = it.a[0]
    if k == 'items':
        v = expand(st.norm(it.a[1]))
        e = elems(v)
        if e is not None:
            if not e:
                return [(st, IT('rev', it), None)]
            return [(st, IT('rev', IT('items', eseq(e[:-1]))), e[-1])]
        r = []
        for emp, s in I.fork_bool(st, is_empty_t(st, v)):
            if emp:
                r.append((s, IT('rev', IT('items', EMPTY)), None))
            else:
                ix = s.norm(sub(s.norm(length(v)), I_(1)))
                r.append((s, IT('rev', IT('items', slice_at(s, v, I_(0), ix))), last_of(I, s, v, ix)))
        return r
    if k == 'range':
        lo, hi = st.norm(it.a[1]), st.norm(it.a[2])
        r = []
        for kk, s in I.fork_bool(st, lt(lo, hi)):
            n = s.norm(sub(hi, I_(1)))
            r.append((s, IT('rev', IT('range', lo, n if kk else hi)), n if kk else None))
        return r
    if k == 'map':
        r = []
        for s, i2, e in nxt_back(I, fr, st, it.a[1], site, outs):
            i2 = i2.a[1]
            if e is None:
                r.append((s, IT('rev', IT('map', i2, it.a[2])), None))
                continue
            for f2, o in call_iter_fn(I, fr, s, it.a[2], [e], site):
                if o.kind == 'ret':
                    r.append((o.st, IT('rev', IT('map', i2, f2)), o.v))
                else:
                    outs.append(o)
        return r
    if k == 'rev':
        return [(s, IT('rev', IT('rev', i2)), e) for s, i2, e in nxt(I, fr, st, it.a[1], site, outs)]
    if k == 'chunks_exact' or k == 'enumerate' or k == 'split':
        v = app('revitems', it)
        return nxt(I, fr, st, IT('items', v), site, outs)
    raise Unsupported('rev iterator ' + str(k))


def pull(I, fr, st, it, site, outs):
    """next() with SKIPs resolved"""
    first = nxt(I, fr, st, it, site, outs)
    if not any(e is SKIP for _, _, e in first):
        return first
    r = [x for x in first if x[2] is not SKIP]
    for s, i2, _ in [x for x in first if x[2] is SKIP]:
        def step(s2, acc, item):
            return [('stop', s2, item)]
        ends, stops, o = drive(I, fr, s, i2, UNIT, step, site, keep=True)
        outs += o
        r += [(s2, it2, None) for s2, acc, it2 in ends]
        r += [(s2, it2, v) for s2, v, it2 in stops]
    return r


def drive(I, fr, st, it, acc, step, site, keep=False):
    """fold over an iterator. step(state, acc, item) -> [('go', st, acc) | ('stop', st, v) | ('out', Out)]
    -> (ends [(st, acc)], stops [(st, v)], other outs)"""
    I.ndrv = getattr(I, 'ndrv', 0)
    b = site[1] if site else 0
    ci, ca = ('drv', fr.depth, b, 'it'), ('drv', fr.depth, b, 'acc')
    tag = ('D', fr_key(fr), b)
    while ci in st.cells:
        ci, ca = ci + ('+',), ca + ('+',)
        tag = tag + ('+',)
    st.cells[ci], st.cells[ca] = it, acc
    saved = fr.unr

    def once(s, outs, ends, stops):
        back = []
        i0 = s.cells[ci]
        del s.cells[ci]
        for s2, i2, e in nxt(I, fr, s, i0, site, outs):
            if s2.dead:
                continue
            if e is None:
                s2.cells[ci] = i2
                ends.append(s2)
            elif e is SKIP:
                s2.cells[ci] = i2
                back.append(s2)
            else:
                a = s2.cells.pop(ca)
                for r in step(s2, a, e):
                    if r[0] == 'go':
                        r[1].cells[ci], r[1].cells[ca] = i2, r[2]
                        if not r[1].dead:
                            back.append(r[1])
                    elif r[0] == 'stop':
                        r[1].cells[ci] = i2
                        stops.append((r[1], r[2]))
                    else:
                        outs.append(r[1])
        return back
    key = ('nodrv', tag)
    outs, ends, stops = [], [], []
    done = False
    mark = (len(I.calls), len(I.loops))
    if not I.consts.get(key):
        cur, n = [st.copy()], 0
        while n < UNROLL:
            fr.unr = saved + (('d', n),)
            heads = [c.copy() for c in cur]
            nb = []
            pre_live = len(ends) + len(stops) + len(outs)
            for s in cur:
                nb += once(s, outs, ends, stops)
            nb = I.dedupe(nb)
            live = len(ends) + len(stops) + len(outs) > pre_live
            if not nb:
                done = True
                break
            w = max(24, I.unroll_width)
            if len(nb) > w:
                nb = I.merge_parts(nb, ('du', tag, n))
                if len(nb) > w:
                    break
            if not I.table and not all(I.progress(heads, x) for x in nb):
                break
            cur = nb
            n += 1
        fr.unr = saved
    if not done:
        I.consts[key] = True
        del I.calls[mark[0]:]
        H = st.copy()
        H.entry = st
        for rnd in range(40):
            del I.calls[mark[0]:]
            del I.loops[mark[1]:]
            outs, ends, stops = [], [], []
            back = once(H.copy(), outs, ends, stops)
            if not back:
                break
            for x in back:
                x.log = H.log
            J = join([H] + back, tag, loop=True)
            if same(J, H):
                break
            J.entry = st
            H = J
        else:
            raise Unsupported('iterator fold did not stabilise in ' + fr.body.name)
        I.loops.append((fr, ('drive', ci, ca), H, back))
        forall(st, H, back, ends + [x[0] for x in stops])
    re_, rs_ = [], []
    for s in ends:
        i2 = s.cells.pop(ci, None)
        a = s.cells.pop(ca, None)
        re_.append((s, a, i2) if keep else (s, a))
    for s, v in stops:
        i2 = s.cells.pop(ci, None)
        s.cells.pop(ca, None)
        rs_.append((s, v, i2) if keep else (s, v))
    for o in outs:
        o.st.cells.pop(ci, None)
        o.st.cells.pop(ca, None)
    return re_, rs_, outs


@post('IntoIterator:into_iter', '[]:iter', 'Vec:iter', '[]:iter_mut', 'Option:iter', 'str:bytes', 'HashSet:iter', 'VecDeque:iter', 'Vec:drain#')
def _into_iter(I, fr, st, info, args, site):
    v = args[0]
    if info.method == 'iter' or (v.op == 'ref' and info.self_ty is not None and info.self_ty.n == '&'):
        v = I.deref(st, v)
    if v.op == 'ref' and info.self_ty is not None and info.self_ty.n not in ('&mut',) and info.method == 'into_iter':
        x = I.deref(st, v)
        if x.op not in ('iter',):
            v = v
    t = info.self_ty
    return R(st, to_iter(I, st, v, t))


@post('iter:once', 'iter::once')
def _once(I, fr, st, info, args, site):
    return R(st, IT('items', eseq([args[0]])))


@post('iter:empty', 'iter::empty')
def _iempty(I, fr, st, info, args, site):
    return R(st, IT('items', EMPTY))


@post('iter:from_fn', 'iter::from_fn')
def _fromfn(I, fr, st, info, args, site):
    return R(st, IT('from_fn', args[0]))


@post('iter:repeat', 'iter::repeat')
def _irep(I, fr, st, info, args, site):
    return R(st, IT('repeat', args[0]))


def adapt1(kind):
    def m(I, fr, st, info, args, site):
        return R(st, IT(kind, to_iter(I, st, args[0], info.self_ty), args[1]))
    return m


for k in ('map', 'filter', 'filter_map', 'take', 'skip', 'map_while', 'take_while', 'inspect'):
    POST['Iterator:' + k] = adapt1(k)


@post('Iterator:zip')
def _zip(I, fr, st, info, args, site):
    return R(st, IT('zip', to_iter(I, st, args[0]), to_iter(I, st, args[1], info.gen[0] if info.gen else None)))


@post('Iterator:chain')
def _chain(I, fr, st, info, args, site):
    a, b = to_iter(I, st, args[0], info.self_ty), to_iter(I, st, args[1], info.gen[0] if info.gen else None)
    if a.op == 'iter' and b.op == 'iter' and a.a[0] == 'items' and b.a[0] == 'items':
        return R(st, IT('items', concat(a.a[1], b.a[1])))
    return R(st, IT('chain', a, b))


@post('Iterator:flat_map')
def _flatmap(I, fr, st, info, args, site):
    return R(st, IT('flat', sym('nocur'), to_iter(I, st, args[0]), args[1]))


@post('Iterator:flatten')
def _flatten(I, fr, st, info, args, site):
    return R(st, IT('flat', sym('nocur'), to_iter(I, st, args[0]), sym('id')))


@post('Iterator:enumerate')
def _enum(I, fr, st, info, args, site):
    return R(st, IT('enumerate', to_iter(I, st, args[0]), I_(0)))


@post('Iterator:rev')
def _irev(I, fr, st, info, args, site):
    return R(st, IT('rev', to_iter(I, st, args[0])))


@post('Iterator:copied', 'Iterator:cloned', 'Iterator:fuse')
def _icop(I, fr, st, info, args, site):
    return R(st, to_iter(I, st, args[0]))


@post('Iterator:peekable')
def _ipk(I, fr, st, info, args, site):
    return R(st, IT('peek', to_iter(I, st, args[0]), sym('nopeek')))


@post('Peekable:peek', 'Iterator:peek')
def _peek(I, fr, st, info, args, site):
    it = I.deref(st, args[0])
    if it.op != 'iter' or it.a[0] != 'peek':
        return NotImplemented
    sl = it.a[2]
    if sl.op == 'adt':
        return R(st, sl.a[2][0])
    outs = []
    r = []
    for s, i2, x in pull(I, fr, st, it.a[1], site, outs):
        o = NONE if x is None else some(x)
        store(I, s, args[0], IT('peek', i2, adt('Slot', None, o)))
        r += R(s, o)
    return outs + r


@post('[]:chunks_exact', '[]:chunks')
def _chunks(I, fr, st, info, args, site):
    n = st.norm(args[1])
    r = []
    for z, s in I.fork_bool(st, eq(n, I_(0))):
        r += pan(I, fr, s, 'chunk size zero') if z else R(s, IT(info.method, I.deref(s, args[0]), n))
    return r


@post('[]:windows')
def _windows(I, fr, st, info, args, site):
    n = st.norm(args[1])
    r = []
    for z, s in I.fork_bool(st, eq(n, I_(0))):
        r += pan(I, fr, s, 'window size zero') if z else R(s, IT('windows', I.deref(s, args[0]), n))
    return r


@post('Split:as_slice')
def _split_rest(I, fr, st, info, args, site):
    it = I.deref(st, args[0])
    if it.op == 'iter' and it.a[0] == 'split':
        return R(st, it.a[1])
    return NotImplemented


@post('[]:split', 'str:split')
def _split(I, fr, st, info, args, site):
    return R(st, IT('split', I.deref(st, args[0]), I.content(st, args[1]), FALSE))


@post('Iterator:next')
def _next(I, fr, st, info, args, site):
    it = I.deref(st, args[0])
    if it.op not in ('iter',) and not (it.op == 'adt' and it.a[0] in ('Range', 'RangeInclusive')):
        if it.op in ('adt', 'seq', 'i', 'tup'):
            return NotImplemented
        # unknown iterator: an unknown sequence of items
        it = IT('items', app('items_of', it))
    it = to_iter(I, st, it)
    outs, r = [], []
    for s, i2, x in pull(I, fr, st, it, site, outs):
        store(I, s, args[0], i2 if i2.op == 'iter' else i2)
        r += R(s, NONE if x is None else some(x))
    return outs + r


def fold_model(f):
    def m(I, fr, st, info, args, site):
        it = to_iter(I, st, args[0], info.self_ty)
        return f(I, fr, st, it, info, args, site)
    return m


def callf(I, fr, s, f, xs, site, k):
    r = []
    for o in I.call_value(fr, s, f, xs, site):
        if o.kind != 'ret':
            r.append(('out', o))
        elif not o.st.dead:
            r += k(o.st, o.v)
    return r


def closure_arg(I, fr, st, f, site):
    """FnMut passed by value: give it a home so that its captured state persists"""
    if f.op == 'clo':
        cell = ('cf', fr.depth, site[1] if site else 0, f.a[0])
        st.cells[cell] = f
        return T('ref', (cell, ())), cell
    return f, None


def finish(I, cell, rs):
    for o in rs:
        if cell is not None:
            o.st.cells.pop(cell, None)
    return rs


def is_opaque_items(it):
    return it.op == 'iter' and it.a[0] == 'items' and it.a[1].op != 'seq'


@post('Iterator:fold')
@fold_model
def _fold(I, fr, st, it, info, args, site):
    f, cell = closure_arg(I, fr, st, args[2], site)
    ends, stops, outs = drive(I, fr, st, it, args[1], lambda s, a, e: callf(I, fr, s, f, [a, e], site, lambda s2, v: [('go', s2, v)]), site)
    return finish(I, cell, outs + [Out('ret', a, s) for s, a in ends])


@post('Iterator:for_each')
@fold_model
def _foreach(I, fr, st, it, info, args, site):
    f, cell = closure_arg(I, fr, st, args[1], site)
    ends, stops, outs = drive(I, fr, st, it, UNIT, lambda s, a, e: callf(I, fr, s, f, [e], site, lambda s2, v: [('go', s2, a)]), site)
    return finish(I, cell, outs + [Out('ret', UNIT, s) for s, a in ends])


@post('Iterator:try_for_each')
@fold_model
def _tryforeach(I, fr, st, it, info, args, site):
    f, cell = closure_arg(I, fr, st, args[1], site)

    def k(s, v):
        r = []
        for s2, good, x in I.res(s, v):
            r.append(('go', s2, UNIT) if good else ('stop', s2, err(x)))
        return r
    ends, stops, outs = drive(I, fr, st, it, UNIT, lambda s, a, e: callf(I, fr, s, f, [e], site, k), site)
    return finish(I, cell, outs + [Out('ret', ok(UNIT), s) for s, a in ends] + [Out('ret', v, s) for s, v in stops])


@post('Iterator:try_fold')
@fold_model
def _tryfold(I, fr, st, it, info, args, site):
    rt = info.gen[2].n if len(info.gen) > 2 else None
    if rt not in ('Result', 'Option', 'ControlFlow'):
        return NotImplemented
    f, cell = closure_arg(I, fr, st, args[2], site)

    def k(s, v):
        if rt == 'Option':
            return [('go', s2, x) if x is not None else ('stop', s2, NONE) for s2, x in I.opt(s, v)]
        if rt == 'Result':
            return [('go', s2, x) if good else ('stop', s2, err(x)) for s2, good, x in I.res(s, v)]
        r = []
        for s2, var, fs in I.split(s, v, 'ControlFlow', {'Continue': 1, 'Break': 1}):
            r.append(('go', s2, fs[0]) if var == 'Continue' else ('stop', s2, adt('ControlFlow', 'Break', fs[0])))
        return r
    wrap_ = {'Option': some, 'Result': ok, 'ControlFlow': lambda x: adt('ControlFlow', 'Continue', x)}[rt]
    ends, stops, outs = drive(I, fr, st, it, args[1], lambda s, a, e: callf(I, fr, s, f, [a, e], site, k), site)
    return finish(I, cell, outs + [Out('ret', wrap_(a), s) for s, a in ends] + [Out('ret', v, s) for s, v in stops])


@post('mem:swap', 'mem::swap')
def _memswap(I, fr, st, info, args, site):
    a, b = I.deref(st, args[0]), I.deref(st, args[1])
    if target(I, st, args[0]) is None or target(I, st, args[1]) is None:
        return NotImplemented
    store(I, st, args[0], b)
    store(I, st, args[1], a)
    return R(st, UNIT)


def in_seq(I, s, v, seq_):
    """the state where the found index v is one of the sequence"""
    i = v.a[2][0] if is_adt(v, 'Some') else None
    if i is None or i.op != 'lin':
        return [s]
    ss = [s]
    for t in (i, s.norm(add(i, I_(1)))):
        if t.op == 'lin':
            ss = [s3 for s2 in ss for bad, s3 in I.fork_bool(s2, app('ovf', T('lin', (t.a[0], t.a[1], 'usize')), 'usize')) if not bad]
    return ss or [s]


def pred_model(on_hit, at_end, pos=False):
    def m(I, fr, st, it, info, args, site):
        f, cell = closure_arg(I, fr, st, args[1], site)

        def step(s, a, e):
            def k(s2, v):
                r = []
                for b, s3 in I.fork_bool(s2, v):
                    h = on_hit(b, a, e)
                    r.append(('stop', s3, h) if h is not None else ('go', s3, s3.norm(add(a, I_(1)))))
                return r
            return callf(I, fr, s, f, [e], site, k)
        it0 = I.deref(st, it) if pos else None
        ends, stops, outs = drive(I, fr, st, it, I_(0), step, site, keep=True)
        if it0 is not None and it0.op == 'iter' and it0.a[0] == 'items':
            # the index of the hit, counted from what is left of the sequence
            def left(s, v, i2):
                i2 = I.deref(s, i2) if i2 is not None else None
                if i2 is None or i2.op != 'iter' or i2.a[0] != 'items':
                    return v
                return some(s.norm(sub(sub(length(it0.a[1]), length(i2.a[1])), I_(1))))
            stops = [(s, left(s, v, i2), i2) for s, v, i2 in stops]
            stops = [(s3, v, i2) for s, v, i2 in stops for s3 in in_seq(I, s, v, it0.a[1])]
        return finish(I, cell, outs + [Out('ret', at_end(a), s) for s, a, _ in ends] + [Out('ret', v, s) for s, v, _ in stops])
    return fold_model(m)


POST['Iterator:any'] = pred_model(lambda b, a, e: TRUE if b else None, lambda a: FALSE)
POST['Iterator:all'] = pred_model(lambda b, a, e: None if b else FALSE, lambda a: TRUE)
POST['Iterator:find'] = pred_model(lambda b, a, e: some(e) if b else None, lambda a: NONE)
POST['Iterator:position'] = pred_model(lambda b, a, e: some(a) if b else None, lambda a: NONE, True)


def by_ref_store(model):
    """any/all/find/position take &mut self: keep the iterator's new position"""
    def m(I, fr, st, info, args, site):
        return model(I, fr, st, info, args, site)
    return m


@post('Iterator:find_map')
@fold_model
def _findmap(I, fr, st, it, info, args, site):
    f, cell = closure_arg(I, fr, st, args[1], site)

    def k(s, v):
        return [('stop', s2, some(x)) if x is not None else ('go', s2, UNIT) for s2, x in I.opt(s, v)]
    ends, stops, outs = drive(I, fr, st, it, UNIT, lambda s, a, e: callf(I, fr, s, f, [e], site, k), site)
    return finish(I, cell, outs + [Out('ret', NONE, s) for s, a in ends] + [Out('ret', v, s) for s, v in stops])


@post('Iterator:rposition')
@fold_model
def _rpos(I, fr, st, it, info, args, site):
    it0 = I.deref(st, it)
    if it0.op != 'iter' or it0.a[0] != 'items':
        return NotImplemented
    f, cell = closure_arg(I, fr, st, args[1], site)

    def step(s, a, e):
        def k(s2, v):
            return [('stop', s3, UNIT) if b else ('go', s3, a) for b, s3 in I.fork_bool(s2, v)]
        return callf(I, fr, s, f, [e], site, k)
    ends, stops, outs = drive(I, fr, st, IT('rev', it0), UNIT, step, site, keep=True)
    rs = []
    for s, v, i2 in stops:
        # what is left lies before the hit
        if i2.op == 'iter' and i2.a[0] == 'rev' and i2.a[1].op == 'iter' and i2.a[1].a[0] == 'items':
            rs.append(Out('ret', some(s.norm(length(i2.a[1].a[1]))), s))
        else:
            rs.append(Out('ret', some(app('fld', app('call:rposition', it0.a[1]), 'Some', 0)), s))
    return finish(I, cell, outs + [Out('ret', NONE, s) for s, a, _ in ends] + rs)


@post('Iterator:count')
@fold_model
def _count(I, fr, st, it, info, args, site):
    ends, stops, outs = drive(I, fr, st, it, I_(0), lambda s, a, e: [('go', s, s.norm(add(a, I_(1))))], site)
    return outs + [Out('ret', a, s) for s, a in ends]


@post('Iterator:sum')
@fold_model
def _sum(I, fr, st, it, info, args, site):
    rt = rettype(info)
    if rt is not None and rt.n in ('Result', 'Option'):
        def step(s, a, e):
            if rt.n == 'Option':
                return [('go', s2, s2.norm(add(a, s2.norm(I.deref(s2, x))))) if x is not None else ('stop', s2, NONE) for s2, x in I.opt(s, e)]
            return [('go', s2, s2.norm(add(a, s2.norm(I.deref(s2, x))))) if k else ('stop', s2, err(x)) for s2, k, x in I.res(s, e)]
        ends, stops, outs = drive(I, fr, st, it, I_(0), step, site)
        w = ok if rt.n == 'Result' else some
        return outs + [Out('ret', w(a), s) for s, a in ends] + [Out('ret', v, s) for s, v in stops]
    ends, stops, outs = drive(I, fr, st, it, I_(0), lambda s, a, e: [('go', s, s.norm(add(a, s.norm(I.deref(s, e)))))], site)
    return outs + [Out('ret', a, s) for s, a in ends]


@post('Iterator:last')
@fold_model
def _ilast(I, fr, st, it, info, args, site):
    ends, stops, outs = drive(I, fr, st, it, NONE, lambda s, a, e: [('go', s, some(e))], site)
    return outs + [Out('ret', a, s) for s, a in ends]


@post('Iterator:nth')
def _nth(I, fr, st, info, args, site):
    it = I.deref(st, args[0])
    n = st.norm(args[1])
    if n.op != 'i':
        return NotImplemented
    cur, outs, res = [(st, to_iter(I, st, it))], [], []
    for i in range(n.a[0] + 1):
        nx = []
        for s, j in cur:
            for s2, j2, x in pull(I, fr, s, j, site, outs):
                if x is None:
                    store(I, s2, args[0], j2)
                    res += R(s2, NONE)
                elif i == n.a[0]:
                    store(I, s2, args[0], j2)
                    res += R(s2, some(x))
                else:
                    nx.append((s2, j2))
        cur = nx
    return outs + res


def collect_into(I, fr, st, it, t, site):
    wrapk = None
    if t is not None and t.n in ('Result', 'Option'):
        wrapk = t.n
        inner = t.a[0] if t.a else None
    else:
        inner = t
    if wrapk is None and it.op == 'iter' and it.a[0] == 'items' and not (inner is not None and inner.n == 'String'):
        return R(st, it.a[1])

    def put(s, a, x):
        if inner is not None and inner.n == 'String':
            x = s.norm(I.content(s, x))
            if x.op == 'i' and x.a[1] == 'char':
                x = bseq(chr(x.a[0]).encode())
            return ('go', s, concat(a, x))
        if inner is not None and inner.n == '()' and not inner.a:
            return ('go', s, UNIT)
        return ('go', s, seq(('s', a), ('e', x)))

    def step(s, a, e):
        if wrapk == 'Result':
            return [put(s2, a, x) if k else ('stop', s2, err(x)) for s2, k, x in I.res(s, e)]
        if wrapk == 'Option':
            return [put(s2, a, x) if x is not None else ('stop', s2, NONE) for s2, x in I.opt(s, e)]
        return [put(s, a, e)]
    ends, stops, outs = drive(I, fr, st, it, EMPTY if not (inner is not None and inner.n == '()' and not inner.a) else UNIT, step, site)
    w = {'Result': ok, 'Option': some, None: lambda x: x}[wrapk]
    return outs + [Out('ret', w(a), s) for s, a in ends] + [Out('ret', v, s) for s, v in stops]


def local_from_iter(I, fr, t, outs, site, wrapk=None):
    """collections defined in the workspace: hand the collected items to their FromIterator"""
    if t is None or t.n in ('Vec', 'String', '()', 'Box', 'HashMap', 'BTreeMap', '_') or t.n in fr.env and fr.env[t.n].n == t.n:
        return outs
    r = I.P.resolve(fr.crate, '<%r as FromIterator>::from_iter' % (t,))
    if r is None:
        return outs
    res = []
    for o in outs:
        v = o.v
        if o.kind == 'ret' and wrapk:
            if not is_adt(v, {'Result': 'Ok', 'Option': 'Some'}[wrapk]):
                res.append(o)
                continue
            v = v.a[2][0]
        if o.kind != 'ret' or v.op != 'seq' and not v.op == 'phi':
            res.append(o)
            continue
        for p in I.run_body(r[0], r[1], [to_iter(I, o.st, v)], o.st, fr, site):
            if p.kind == 'ret' and wrapk:
                p = Out('ret', ok(p.v) if wrapk == 'Result' else some(p.v), p.st)
            res.append(p)
    return res


@post('Iterator:collect')
def _collect(I, fr, st, info, args, site):
    t = rettype(info)
    outs = collect_into(I, fr, st, to_iter(I, st, args[0], info.self_ty), t, site)
    if t is not None and t.n in ('Result', 'Option'):
        return local_from_iter(I, fr, t.a[0] if t.a else None, outs, site, t.n)
    return local_from_iter(I, fr, t, outs, site)


@post('FromIterator:from_iter')
def _fromiter(I, fr, st, info, args, site):
    return collect_into(I, fr, st, to_iter(I, st, args[0]), info.self_ty, site)


@post('Iterator:try_collect')
def _trycollect(I, fr, st, info, args, site):
    # residual kind from the iterator's item type: inspect items
    it = to_iter(I, st, args[0], info.self_ty)

    def step(s, a, e):
        v = I.deref(s, e)
        if v.op == 'adt' and v.a[0] == 'Option':
            return [('go', s2, seq(('s', a), ('e', x))) if x is not None else ('stop', s2, NONE) for s2, x in I.opt(s, e)]
        return [('go', s2, seq(('s', a), ('e', x))) if k else ('stop', s2, err(x)) for s2, k, x in I.res(s, e)]
    ends, stops, outs = drive(I, fr, st, it, EMPTY, step, site)
    good = local_from_iter(I, fr, rettype(info), [Out('ret', ok(a), s) for s, a in ends], site, 'Result')
    return outs + good + [Out('ret', v, s) for s, v in stops]


# --------------------------------------------------------------------------- fmt
@post('Arguments:new_const')
def _anc(I, fr, st, info, args, site):
    return R(st, adt('Arguments', None, I.deref(st, args[0]), EMPTY, EMPTY))


@post('Arguments:new_v1')
def _anv(I, fr, st, info, args, site):
    return R(st, adt('Arguments', None, I.deref(st, args[0]), I.content(st, args[1]), EMPTY))


@post('Arguments:new_v1_formatted')
def _anvf(I, fr, st, info, args, site):
    return R(st, adt('Arguments', None, I.deref(st, args[0]), I.content(st, args[1]), I.content(st, args[2])))


for _k in ('display', 'debug', 'lower_hex', 'upper_hex', 'binary', 'octal', 'pointer', 'lower_exp'):
    def _na(I, fr, st, info, args, site, k=_k):
        t = info.gen[0] if info.gen else None
        return R(st, T('adt', ('Argument', None, (I.content(st, args[0]), T('ty', (k, repr(t), )),))))
    POST['Argument:new_' + _k] = _na


@post('Argument:none')
def _argnone(I, fr, st, info, args, site):
    return R(st, EMPTY)


@post('Placeholder:new')
def _ph(I, fr, st, info, args, site):
    return R(st, app('Placeholder', *[I.content(st, a) for a in args]))


TRN = {'display': 'Display', 'debug': 'Debug', 'lower_hex': 'LowerHex', 'upper_hex': 'UpperHex', 'binary': 'Binary', 'octal': 'Octal',
       'pointer': 'Pointer', 'lower_exp': 'LowerExp'}


RADIX_FMT = {'binary': 'b', 'octal': 'o', 'lower_hex': 'x', 'upper_hex': 'X'}


def fmt_spec(v, kind, spec):
    """rendered text v under a Placeholder (fill, align, flags, precision, width)"""
    fill, align, flags, prec, width = (list(spec.a[1:]) + [None] * 5)[:5]
    b = to_bytes(v) if is_bytes(v) else None
    if b is not None and flags is not None and flags.op == 'i' and flags.a[0] in (0, 8) and width is not None:
        width, prec = [app(x.a[1] or x.a[0], *x.a[2]) if x.op == 'adt' else x for x in (width, prec)]
        if prec.op != 'Implied':
            return app('fmtspec', v, *spec.a[1:])
        if width.op == 'Implied':
            return v
        if width.op == 'Is' and width.a[0].op == 'i' and (flags.a[0] == 8 or len(b) >= width.a[0].a[0]) and (kind in RADIX_FMT or b.isdigit()):
            return bseq(b.rjust(width.a[0].a[0], b'0'))
        al = (align.a[1] or align.a[0] if align.op == 'adt' else align.op)
        if width.op == 'Is' and width.a[0].op == 'i' and flags.a[0] == 0 and fill.op == 'i' and fill.a[0] < 128 and max(b, default=0) < 128 and al in ('Right', 'Left'):
            f = bytes([fill.a[0]])
            return bseq(b.rjust(width.a[0].a[0], f) if al == 'Right' else b.ljust(width.a[0].a[0], f))
    return app('fmtspec', v, *spec.a[1:])


def fmt_value(I, fr, st, x, kind, ty, site):
    """[Out] with the rendered sequence"""
    t = strip_ref(pty(ty)) if ty and ty != 'None' else None
    while t is not None and t.n in ('Box', 'Rc', 'Arc') and t.a:
        t = strip_ref(t.a[0])
    x = I.content(st, x)
    if x.op == 'adt' and x.a[0] == 'Arguments':
        return render(I, fr, st, x, site)
    if kind == 'display' and t is not None and t.n in ('str', 'String', 'Cow'):
        return R(st, x if x.op == 'seq' else seq(('s', x)))
    if t is not None and t.n in INTS:
        if kind == 'display' and x.op == 'i':
            return R(st, bseq(str(x.a[0]).encode()))
        if kind in RADIX_FMT and x.op == 'i' and x.a[0] >= 0:
            return R(st, bseq(format(x.a[0], RADIX_FMT[kind]).encode()))
        return R(st, app('dec' if kind == 'display' else kind, x, t.n))
    if t is not None:
        callee = '<%r as std::fmt::%s>::fmt' % (t, TRN[kind])
        if I.P.resolve(fr.crate, callee) is not None:
            return fmt_call(I, fr, st, callee, x, site)
        if t.n == 'Base64Display' and kind == 'display':
            return R(st, x)
    return R(st, app('fmt:' + kind, x, ty))


def fmt_call(I, fr, st, callee, x, site):
    cell = ('fmtr', fr.depth, site[1] if site else 0, len(st.cells))
    st.cells[cell] = EMPTY
    r = []
    for o in I.call_path(fr, st, callee, [x, T('ref', (cell, ()))], site):
        buf = o.st.cells.pop(cell, EMPTY)
        if o.kind == 'ret':
            r.append(Out('ret', buf, o.st))
        else:
            r.append(o)
    return r


def render(I, fr, st, a, site):
    if a.op != 'adt' or a.a[0] != 'Arguments':
        return R(st, app('fmtargs', a))
    pieces, xs, specs = a.a[2]
    pe = elems(pieces)
    xe = elems(xs)
    if pe is None or xe is None:
        return R(st, app('fmtargs', a))
    se = elems(specs) if specs is not EMPTY else None
    n = len(se) if se is not None else len(xe)
    cur = [Out('ret', EMPTY, st)]
    for i in range(max(len(pe), n)):
        nx = []
        for o in cur:
            if o.kind != 'ret':
                nx.append(o)
                continue
            b = o.v
            if i < len(pe):
                p = I.content(o.st, pe[i])
                b = concat(b, p if p.op == 'seq' else seq(('s', p)))
            if i < n:
                spec = None
                j = i
                if se is not None:
                    spec = se[i]
                    if spec.op == 'Placeholder' and spec.a[0].op == 'i':
                        j = spec.a[0].a[0]
                arg = xe[j]
                if arg.op == 'adt' and arg.a[0] == 'Argument':
                    k, ty = arg.a[2][1].a
                    for o2 in fmt_value(I, fr, o.st, arg.a[2][0], k, ty, site):
                        if o2.kind == 'ret':
                            v = o2.v
                            if spec is not None and spec.op == 'Placeholder' and not plain_spec(spec):
                                v = fmt_spec(v, k, spec)
                            nx.append(Out('ret', concat(b, v if v.op == 'seq' else seq(('s', v))), o2.st))
                        else:
                            nx.append(o2)
                else:
                    nx.append(Out('ret', concat(b, app('fmtarg', arg)), o.st))
            else:
                nx.append(Out('ret', b, o.st))
        cur = nx
    return cur


def plain_spec(sp):
    return False


@post('fmt:format', 'fmt::format', 'alloc::fmt::format', 'fmt:format_inner', 'format:format_inner')
def _format(I, fr, st, info, args, site):
    return render(I, fr, st, I.content(st, args[0]), site)


@post('__private:format_err')
def _ferr(I, fr, st, info, args, site):
    return I.then(render(I, fr, st, I.content(st, args[0]), site), lambda s, v: R(s, app('anyhow', v)))


@post('Error:msg')
def _emsg(I, fr, st, info, args, site):
    return R(st, app('anyhow', I.content(st, args[0])))


def w_append(I, st, w, v):
    tg = target(I, st, w)
    if tg is None:
        return
    old = I.get(st, tg[0], tg[1])
    I.put(st, tg[0], tg[1], concat(old, v))


@post('Write:write_fmt', 'Formatter:write_fmt', 'String:Write:write_fmt')
def _wfmt(I, fr, st, info, args, site):
    def k(s, v):
        w_append(I, s, args[0], v)
        return R(s, ok(UNIT))
    return I.then(render(I, fr, st, I.content(st, args[1]), site), k)


@post('Write:write_str', 'Formatter:write_str', 'Formatter:pad')
def _wstr(I, fr, st, info, args, site):
    w_append(I, st, args[0], I.content(st, args[1]))
    return R(st, ok(UNIT))


@post('Write:write_char', 'Formatter:write_char')
def _wchr(I, fr, st, info, args, site):
    c = st.norm(args[1])
    w_append(I, st, args[0], bseq(chr(c.a[0]).encode()) if c.op == 'i' else seq(('s', app('chr', c))))
    return R(st, ok(UNIT))


@post('str:to_ascii_lowercase', 'str:to_ascii_uppercase', 'slice:to_ascii_lowercase', 'slice:to_ascii_uppercase')
def _ascii_case(I, fr, st, info, args, site):
    v = I.content(st, args[0])
    if not is_bytes(v):
        return NotImplemented
    b = to_bytes(v)
    return R(st, bseq(b.lower() if info.method.endswith('lowercase') else b.upper()))


@post('ToString:to_string')
def _tostr(I, fr, st, info, args, site):
    x = st.norm(I.content(st, args[0]))
    if strip_ref(info.self_ty).n == 'char' and x.op == 'i':
        return R(st, bseq(chr(x.a[0]).encode()))
    return fmt_value(I, fr, st, args[0], 'display', repr(strip_ref(info.self_ty)), site)


@post('Display:fmt', 'Debug:fmt', 'UpperHex:fmt', 'LowerHex:fmt')
def _dfmt(I, fr, st, info, args, site):
    kind = {v: k for k, v in TRN.items()}[info.trait.n]
    t = strip_ref(info.self_ty)
    x = I.content(st, args[0])
    if info.self_ty.n in ('&', '&mut', 'Box', 'Rc', 'Arc', 'Cow'):
        def k(s, v):
            w_append(I, s, args[1], v)
            return R(s, ok(UNIT))
        return I.then(fmt_value(I, fr, st, x, kind, repr(t), site), k)
    if t.n in ('str', 'String') and kind == 'display':
        w_append(I, st, args[1], x if x.op == 'seq' else seq(('s', x)))
    elif t.n in INTS:
        w_append(I, st, args[1], app('dec' if kind == 'display' else kind, x, t.n))
    elif t.n == 'Base64Display' and kind == 'display':
        w_append(I, st, args[1], x)
    else:
        w_append(I, st, args[1], app('fmt:' + kind, x, repr(t)))
    return R(st, ok(UNIT))


def _dbg(I, fr, st, info, args, site):
    w_append(I, st, args[0], app('dbg:' + info.method, *[I.content(st, a) for a in args[1:]]))
    return R(st, ok(UNIT))


for _k in ('debug_struct_field1_finish', 'debug_struct_field2_finish', 'debug_struct_field3_finish', 'debug_struct_field4_finish', 'debug_struct_fields_finish',
           'debug_tuple_field1_finish', 'debug_tuple_field2_finish', 'debug_tuple_field3_finish'):
    POST['Formatter:' + _k] = _dbg


@post('Formatter:debug_struct', 'Formatter:debug_tuple', 'Formatter:debug_list', 'Formatter:debug_map', 'Formatter:debug_set')
def _dbgb(I, fr, st, info, args, site):
    if len(args) > 1:
        w_append(I, st, args[0], I.content(st, args[1]))
    return R(st, args[0])


@post('DebugStruct:field', 'DebugTuple:field', 'DebugList:entry', 'DebugList:entries', 'DebugStruct:finish_non_exhaustive')
def _dbgf(I, fr, st, info, args, site):
    w_append(I, st, args[0], app('dbgfield', *[I.content(st, a) for a in args[1:]]))
    return R(st, args[0])


@post('DebugStruct:finish', 'DebugTuple:finish', 'DebugList:finish')
def _dbgfin(I, fr, st, info, args, site):
    return R(st, ok(UNIT))


# --------------------------------------------------------------------- panics
@post('panicking:panic', 'panicking:panic_fmt', 'rt:panic_fmt', 'panicking:panic_display', 'panicking:assert_failed', 'panicking:unreachable_display',
      'panicking:panic_str', 'panicking:panic_explicit', 'panicking:panic_nounwind', 'option:expect_failed', 'result:unwrap_failed',
      'panicking::panic', 'panicking::panic_fmt', 'rt::begin_panic', 'panicking:panic_const')
def _panic(I, fr, st, info, args, site):
    m = I.content(st, args[0]) if args else None
    return pan(I, fr, st, 'panic: ' + (show(m)[:100] if m is not None else ''))


@post('io:_eprint', 'io:_print', 'io::_eprint', 'io::_print')
def _eprint(I, fr, st, info, args, site):
    return R(st, UNIT)


@post('OnceLock:get_or_init', 'OnceCell:get_or_init', 'LazyLock:force')
def _goi(I, fr, st, info, args, site):
    if len(args) > 1:
        return I.call_value(fr, st, args[1], [], site)
    return NotImplemented


@post('bool:then')
def _bthen(I, fr, st, info, args, site):
    r = []
    for k, s in I.fork_bool(st, st.norm(args[0])):
        r += I.then(I.call_value(fr, s, args[1], [], site), lambda s2, v: R(s2, some(v))) if k else R(s, NONE)
    return r


@post('bool:then_some')
def _bthens(I, fr, st, info, args, site):
    return [Out('ret', some(args[1]) if k else NONE, s) for k, s in I.fork_bool(st, st.norm(args[0]))]


@post('ptr:write', 'proj:ptr_write')
def _ptrw(I, fr, st, info, args, site):
    store(I, st, args[0], args[1])
    return R(st, UNIT)


# -------------------------------------------------------------- io::Cursor / io::Write
@post('Cursor:new')
def _curnew(I, fr, st, info, args, site):
    tg = target(I, st, args[0])
    if tg is None:
        return NotImplemented
    old = I.get(st, tg[0], tg[1])
    ty = repr(info.self_ty) + repr(info.gen)
    if 'Vec<' in ty or old.op == 'seq' and not old.a and '[u8]' not in ty:
        if old is EMPTY:
            return R(st, adt('Cursor', 'append', args[0]))
        return NotImplemented
    if '[u8' in ty:
        return R(st, adt('Cursor', 'slice', args[0], EMPTY))
    return NotImplemented


def cursor_write(I, st, w, v):
    """-> [(outcome, state)] of io::Write::write for the modelled writers, None otherwise"""
    tg = target(I, st, w)
    if tg is None:
        return None
    c = I.get(st, tg[0], tg[1])
    if c.op == 'adt' and c.a[0] == 'Cursor' and c.a[1] == 'append':
        store(I, st, c.a[2][0], concat(I.deref(st, c.a[2][0]), v))
        return [(ok(length(v)), st)]
    if c.op == 'adt' and c.a[0] == 'Cursor' and c.a[1] == 'slice' and known_len(v) == 1:
        cont = I.deref(st, c.a[2][0])
        done = c.a[2][1]
        base = cont.a[2][0] if cont.op == 'adt' and cont.a[0] == 'SliceW' else cont
        r = []
        for k, s in I.fork_bool(st, st.norm(lt(length(done), length(base)))):
            if k:
                d2 = concat(done, v)
                store(I, s, c.a[2][0], adt('SliceW', '', base, d2))
                I.put(s, tg[0], tg[1], adt('Cursor', 'slice', c.a[2][0], d2))
                r.append((ok(I_(1)), s))
            else:
                r.append((ok(I_(0)), s))
        return r
    if c.op == 'seq' or c.op in ('phi', 'sl') and 'Vec' in repr(c):
        store(I, st, w, concat(c, v))
        return [(ok(length(v)), st)]
    return None


@post('Write:write', 'io::Write:write')
def _iowrite(I, fr, st, info, args, site):
    r = cursor_write(I, st, args[0], I.deref(st, args[1]))
    if r is None:
        return NotImplemented
    return [Out('ret', v, s) for v, s in r]


@post('Write:write_all')
def _iowriteall(I, fr, st, info, args, site):
    v = I.deref(st, args[1])
    r = cursor_write(I, st, args[0], v)
    if r is None:
        return NotImplemented
    return [Out('ret', ok(UNIT) if x.a[2][0] is length(v) else err(app('io', sym('write_zero'))), s) for x, s in r]


import models_more  # noqa: E402,F401  further models, registered in the same tables
