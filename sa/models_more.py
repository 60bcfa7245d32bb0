"""Further models: string searching, mutable sub-slices, orderings, integer helpers."""
from dom import *
from interp import Out, Unsupported, iter_known
import models as M
from models import I_, ok, err, post, POST, PRE, R, pan, IT, INTS, seqkeys, target, store, some, NONE, slice_at, nxt, nxt_back, pull, to_iter, drive, \
    fold_model, closure_arg, callf, finish, lo_hi, call_iter_fn, scan_delim, is_empty_t, fork_eq, range_of, check_range, SKIP


def conc(v):
    """the bytes of a sequence that is completely known"""
    return to_bytes(v) if v.op == 'seq' and is_bytes(v) else None


def text(v):
    b = conc(v)
    try:
        return None if b is None else b.decode()
    except UnicodeDecodeError:
        return None


def chr_(c):
    return I_(ord(c), 'char')


def known_ascii(st, v):
    """the elements of a text known to be ASCII throughout"""
    e = elems(expand(st.norm(v)))
    if e is None:
        return None
    for x in e:
        if x.op == 'i':
            if x.a[0] > 127:
                return None
            continue
        lo, hi = st.bounds(x)
        if hi is None or hi > 127:
            return None
    return e


# ---------------------------------------------------------------- str patterns
class Forks(Exception):
    pass


def matcher(I, fr, st, p, site):
    """a str pattern as f(text, position) -> length of the match or None; the pattern is a char, a text, several chars or a predicate"""
    d = I.content(st, p)
    if d.op == 'i' and d.a[1] in ('char', 'u8'):
        c = chr(d.a[0])
        return lambda t, i: 1 if t[i:i + 1] == c else None
    if d.op == 'seq':
        e = elems(d)
        if e and all(x.op == 'i' and x.a[1] == 'char' for x in e):
            cs = {chr(x.a[0]) for x in e}
            return lambda t, i: 1 if t[i:i + 1] in cs and i < len(t) else None
        s = text(d)
        if s is None:
            raise Forks
        return lambda t, i: len(s) if t[i:i + len(s)] == s else None

    def f(t, i):
        if i >= len(t):
            return None
        rs = [o for o in I.call_value(fr, st.copy(), p, [chr_(t[i])], site)]
        if len(rs) != 1 or rs[0].kind != 'ret' or rs[0].v.op != 'i':
            raise Forks
        return 1 if rs[0].v.a[0] else None
    if d.op not in ('clo', 'fn', 'fnptr'):
        raise Forks
    return f


def hits(m, t):
    """the non-overlapping matches from the left"""
    r, i = [], 0
    while i <= len(t):
        n = m(t, i)
        if n is None:
            i += 1
        else:
            r.append((i, i + n))
            i += max(n, 1)
    return r


def rhits(m, t):
    """the non-overlapping matches from the right, last first"""
    r, end = [], len(t)
    i = len(t)
    while i >= 0:
        n = m(t, i)
        if n is None or i + n > end:
            i -= 1
            continue
        r.append((i, i + n))
        end = i
        i -= max(n, 1) if n <= 1 else 1
    return r


def u8s(s):
    return bseq(s.encode())


def on_text(f, pats=1):
    """a model for texts that are known; what=(text, matcher, args)"""
    def m(I, fr, st, info, args, site):
        t = text(I.content(st, args[0]))
        if t is None:
            return f.__dict__.get('symbolic', lambda *a: NotImplemented)(I, fr, st, info, args, site)
        try:
            mt = matcher(I, fr, st, args[pats], site) if pats and len(args) > pats else None
            v = f(t, mt, [st.norm(I.content(st, a)) for a in args], info.method)
        except Forks:
            return NotImplemented
        return NotImplemented if v is None else R(st, v)
    return m


def blen(s):
    return I_(len(s.encode()))


def _find(t, m, a, meth):
    h = hits(m, t)
    return some(blen(t[:h[0][0]])) if h else NONE


def _find_sym(I, fr, st, info, args, site):
    p = I.content(st, args[1])
    v = I.content(st, args[0])
    if p.op == 'seq' and known_len(p) == 1 and conc(p) is not None and conc(p)[0] < 128:
        p = I_(conc(p)[0], 'char')
    if p.op == 'i' and p.a[0] < 128:
        p = I_(p.a[0], 'u8')
    elif known_ascii(st, v) is None or p.op not in ('clo', 'fn'):
        return NotImplemented
    else:
        p = args[1]
    outs = []
    rs = scan_delim(I, fr, st, v, p, site, outs, info.method == 'rfind')
    return outs + [Out('ret', NONE if x is None else some(s.norm(length(x[0]))), s) for s, x in rs]


_find.symbolic = _find_sym


def _rfind(t, m, a, meth):
    h = rhits(m, t)
    return some(blen(t[:h[0][0]])) if h else NONE


_rfind.symbolic = _find_sym
POST['str:find'] = on_text(_find)
POST['str:rfind'] = on_text(_rfind)
_scontains0 = POST['str:contains']


def _scontains(I, fr, st, info, args, site):
    p = st.norm(args[1])
    if p.op == 'i' and p.a[0] < 128:
        v = I.content(st, args[0])
        if v.op == 'seq' and any(k == 'b' and p.a[0] in x or k == 'e' and x.op == 'i' and x.a[0] == p.a[0] for k, x in v.a):
            return R(st, TRUE)
        if not st.byte_mask(v) >> p.a[0] & 1:
            return R(st, FALSE)
    return _scontains0(I, fr, st, info, args, site)


POST['str:contains'] = lambda *a: (lambda r: _scontains(*a) if r is NotImplemented else r)(on_text(lambda t, m, x, n: B(bool(hits(m, t))))(*a))


def _trimm(t, m, a, meth):
    lo, hi = 0, len(t)
    if meth in ('trim_matches', 'trim_start_matches'):
        while lo < hi:
            n = m(t, lo)
            if not n:
                break
            lo += n
    if meth in ('trim_matches', 'trim_end_matches'):
        h = {b: x for x, b in rhits(m, t)}
        while lo < hi and h.get(hi, hi) < hi:
            hi = h[hi]
    return u8s(t[lo:max(lo, hi)])


def _trimm_sym(I, fr, st, info, args, site):
    """element by element, for texts of known length whose elements are ASCII"""
    e = known_ascii(st, I.content(st, args[0]))
    p = I.content(st, args[1])
    if e is None or p.op not in ('i', 'clo', 'fn'):
        return NotImplemented
    outs, cur = [], [(st, list(e))]
    for side in ((0,) if 'start' in info.method else (-1,) if 'end' in info.method else (0, -1)):
        fin = []
        while cur:
            nx = []
            for s, xs in cur:
                if not xs:
                    fin.append((s, xs))
                    continue
                if p.op == 'i':
                    br = fork_eq(I, s, xs[side], I_(p.a[0], 'u8'))
                else:
                    br = []
                    for o in I.call_value(fr, s, args[1], [xs[side]], site):
                        if o.kind != 'ret':
                            outs.append(o)
                        else:
                            br += I.fork_bool(o.st, o.v)
                for hit, s2 in br:
                    (nx if hit else fin).append((s2, (xs[1:] if side == 0 else xs[:-1]) if hit else xs))
            cur = nx
        cur = fin
    return outs + [Out('ret', eseq(xs), s) for s, xs in cur]


_trimm.symbolic = _trimm_sym
for _m in ('trim_matches', 'trim_start_matches', 'trim_end_matches', 'trim_left_matches', 'trim_right_matches'):
    POST['str:' + _m] = on_text(_trimm)
WS = ' \t\n\x0b\x0c\r\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'


def _trim(t, m, a, meth):
    return u8s({'trim': t.strip, 'trim_start': t.lstrip, 'trim_end': t.rstrip}[meth](WS))


for _m in ('trim', 'trim_start', 'trim_end'):
    POST['str:' + _m] = on_text(_trim, 0)


def items(xs):
    return IT('items', eseq(xs))


def pieces(t, h):
    r, i = [], 0
    for a, b in h:
        r.append(t[i:a])
        i = b
    return r + [t[i:]]


def _splitn(t, m, a, meth):
    n = a[1]
    if n.op != 'i':
        return None
    n = n.a[0]
    if n == 0:
        return items([])
    if meth == 'splitn':
        return items([u8s(x) for x in pieces(t, hits(m, t)[:n - 1])])
    return items([u8s(x) for x in pieces(t, rhits(m, t)[:n - 1][::-1])][::-1])


POST['str:splitn'] = on_text(_splitn, 2)
POST['str:rsplitn'] = on_text(_splitn, 2)
POST['str:rsplit'] = on_text(lambda t, m, a, n: items([u8s(x) for x in pieces(t, rhits(m, t)[::-1])][::-1]))


def _terminator(t, m, a, meth):
    p = pieces(t, hits(m, t))
    return items([u8s(x) for x in (p[:-1] if p[-1] == '' else p)])


POST['str:split_terminator'] = on_text(_terminator)


def _inclusive(t, m, a, meth):
    r, i = [], 0
    for x, y in hits(m, t):
        r.append(t[i:y])
        i = y
    if i < len(t):
        r.append(t[i:])
    return items([u8s(x) for x in r])


POST['str:split_inclusive'] = on_text(_inclusive)
POST['str:matches'] = on_text(lambda t, m, a, n: items([u8s(t[x:y]) for x, y in hits(m, t)]))
POST['str:match_indices'] = on_text(lambda t, m, a, n: items([tup(blen(t[:x]), u8s(t[x:y])) for x, y in hits(m, t)]))
POST['str:split_whitespace'] = on_text(lambda t, m, a, n: items([u8s(x) for x in t.split()]), 0)
POST['str:split_ascii_whitespace'] = POST['str:split_whitespace']


def _lines(t, m, a, meth):
    p = t.split('\n')
    if p[-1] == '':
        p.pop()
    return items([u8s(x[:-1] if x.endswith('\r') else x) for x in p])


POST['str:lines'] = on_text(_lines, 0)


def _replace(t, m, a, meth):
    h = hits(m, t)
    if meth == 'replacen':
        if a[3].op != 'i':
            return None
        h = h[:a[3].a[0]]
    w = text(a[2])
    return None if w is None else u8s(w.join(pieces(t, h)))


POST['str:replacen'] = on_text(_replace)
_oldreplace = POST.get('str:replace')
POST['str:replace'] = on_text(_replace)
_oldsplit = POST['str:split']


@post('str:split')
def _strsplit(I, fr, st, info, args, site):
    p = I.content(st, args[1])
    if p.op == 'i' and p.a[0] < 128 or p.op == 'seq' and known_len(p) == 1 and conc(p) is not None:
        return _oldsplit(I, fr, st, info, args, site)
    t = text(I.content(st, args[0]))
    if t is not None:
        try:
            return R(st, items([u8s(x) for x in pieces(t, hits(matcher(I, fr, st, args[1], site), t))]))
        except Forks:
            return NotImplemented
    if p.op in ('clo', 'fn') and known_ascii(st, I.content(st, args[0])) is not None:
        return _oldsplit(I, fr, st, info, args, site)
    return NotImplemented


_oldsonce = POST['str:split_once']


@post('str:split_once', 'str:rsplit_once')
def _sonce(I, fr, st, info, args, site):
    t = text(I.content(st, args[0]))
    if t is not None:
        try:
            m = matcher(I, fr, st, args[1], site)
            h = hits(m, t)[:1] if info.method == 'split_once' else rhits(m, t)[:1]
            return R(st, some(tup(u8s(t[:h[0][0]]), u8s(t[h[0][1]:]))) if h else NONE)
        except Forks:
            pass
    return _oldsonce(I, fr, st, info, args, site)


# ---------------------------------------------------------------------- chars
def _chars(I, fr, st, info, args, site):
    v = I.content(st, args[0])
    t = text(v)
    ix = info.method == 'char_indices'
    if t is not None:
        return R(st, items([tup(blen(t[:i]), chr_(c)) if ix else chr_(c) for i, c in enumerate(t)]))
    e = known_ascii(st, v)
    if e is None:
        return NotImplemented
    return R(st, items([tup(I_(i), x) if ix else x for i, x in enumerate(e)]))


POST['str:chars'] = POST['str:char_indices'] = _chars


@post('Chars:as_str', 'Iter:as_slice', 'IntoIter:as_slice', 'Drain:as_slice')
def _asstr(I, fr, st, info, args, site):
    it = I.deref(st, args[0])
    if it.op != 'iter' or it.a[0] != 'items':
        return NotImplemented
    v = it.a[1]
    e = elems(v)
    if info.self_ty.n == 'Chars' and e and all(x.op == 'i' for x in e):
        return R(st, bseq(''.join(chr(x.a[0]) for x in e).encode()))
    return R(st, v)


def _charfn(f):
    def m(I, fr, st, info, args, site):
        c = st.norm(I.deref(st, args[0]))
        if c.op != 'i':
            return NotImplemented
        return R(st, f(chr(c.a[0])))
    return m


POST['char:len_utf8'] = _charfn(lambda c: I_(len(c.encode())))
POST['char:is_alphabetic'] = _charfn(lambda c: B(c.isalpha()))
POST['char:is_alphanumeric'] = _charfn(lambda c: B(c.isalnum()))
POST['char:is_numeric'] = _charfn(lambda c: B(c.isnumeric()))
POST['char:is_whitespace'] = _charfn(lambda c: B(c in WS))
POST['char:is_lowercase'] = _charfn(lambda c: B(c.islower()))
POST['char:is_uppercase'] = _charfn(lambda c: B(c.isupper()))
POST['char:is_control'] = _charfn(lambda c: B(ord(c) < 32 or 127 <= ord(c) < 160))
POST['char:to_ascii_uppercase'] = _charfn(lambda c: chr_(c.upper() if ord(c) < 128 else c))
POST['char:to_ascii_lowercase'] = _charfn(lambda c: chr_(c.lower() if ord(c) < 128 else c))
POST['char:to_uppercase'] = _charfn(lambda c: items([chr_(x) for x in c.upper()]))
POST['char:to_lowercase'] = _charfn(lambda c: items([chr_(x) for x in c.lower()]))
POST['str:to_lowercase'] = on_text(lambda t, m, a, n: u8s(t.lower()), 0)
POST['str:to_uppercase'] = on_text(lambda t, m, a, n: u8s(t.upper()), 0)
for _m, _fn in M.CLS.items():
    def _cc(I, fr, st, info, args, site, m=_m):
        x = st.norm(I.deref(st, args[0]))
        if x.op == 'i':
            return R(st, B(x.a[0] < 128 and M.CLS[m](x.a[0])))
        if (st.bounds(x)[1] or 1 << 30) > 255:
            return NotImplemented
        return POST['u8:' + m](I, fr, st, info, args, site)
    POST.setdefault('char:' + _m, _cc)


@post('char:eq_ignore_ascii_case')
def _ceic(I, fr, st, info, args, site):
    a, b = [st.norm(I.deref(st, x)) for x in args[:2]]
    if a.op != 'i' or b.op != 'i':
        return NotImplemented
    lw = lambda c: c + 32 if 65 <= c <= 90 else c
    return R(st, B(lw(a.a[0]) == lw(b.a[0])))


@post('char:is_digit')
def _cisd(I, fr, st, info, args, site):
    a, b = [st.norm(I.deref(st, x)) for x in args[:2]]
    if a.op != 'i' or b.op != 'i':
        return NotImplemented
    try:
        return R(st, B(a.a[0] < 128 and int(chr(a.a[0]), 36) < b.a[0]))
    except ValueError:
        return R(st, FALSE)


@post('char:from_u32')
def _cfu(I, fr, st, info, args, site):
    a = st.norm(args[0])
    if a.op != 'i':
        return NotImplemented
    v = a.a[0]
    return R(st, some(I_(v, 'char')) if v < 0xd800 or 0xdfff < v < 0x110000 else NONE)


@post('char:encode_utf8')
def _cenc(I, fr, st, info, args, site):
    a = st.norm(args[0])
    tg = target(I, st, args[1])
    if a.op != 'i' or tg is None:
        return NotImplemented
    b = chr(a.a[0]).encode()
    buf = I.deref(st, args[1])
    n = st.norm(length(buf))
    if n.op != 'i':
        return NotImplemented
    if n.a[0] < len(b):
        return pan(I, fr, st, 'encode_utf8 buffer too small')
    store(I, st, args[1], concat(bseq(b), mk_slice(buf, I_(len(b)), None)))
    return R(st, T('ref', (tg[0], tg[1] + (('sl', I_(0), I_(len(b))),))))


@post('str:is_char_boundary')
def _icb(I, fr, st, info, args, site):
    b, i = conc(I.content(st, args[0])), st.norm(args[1])
    if i.op != 'i':
        return NotImplemented
    if b is None:
        e = known_ascii(st, I.content(st, args[0]))
        return NotImplemented if e is None else R(st, B(i.a[0] <= len(e)))
    k = i.a[0]
    return R(st, B(k == len(b) or k < len(b) and (b[k] & 0xc0) != 0x80))


@post('str:is_ascii')
def _sia(I, fr, st, info, args, site):
    b = conc(I.content(st, args[0]))
    return NotImplemented if b is None else R(st, B(all(x < 128 for x in b)))


@post('str:eq_ignore_ascii_case')
def _seic(I, fr, st, info, args, site):
    a, b = conc(I.content(st, args[0])), conc(I.content(st, args[1]))
    return NotImplemented if a is None or b is None else R(st, B(a.lower() == b.lower()))


@post('String:from_utf8_lossy')
def _lossy(I, fr, st, info, args, site):
    v = I.content(st, args[0])
    b = conc(v)
    if b is not None:
        return R(st, bseq(b.decode('utf8', 'replace').encode()))
    if known_ascii(st, v) is not None:
        return R(st, v)
    return NotImplemented


def utf8_error(I, st, v):
    """the bytes a Utf8Error was made from"""
    v = I.content(st, v)
    if v.op == 'Utf8Error':
        return conc(v.a[0])
    return None


@post('Utf8Error:valid_up_to')
def _vup(I, fr, st, info, args, site):
    b = utf8_error(I, st, args[0])
    if b is None:
        return NotImplemented
    try:
        b.decode()
    except UnicodeDecodeError as e:
        return R(st, I_(e.start))
    return NotImplemented


@post('Utf8Error:error_len')
def _uel(I, fr, st, info, args, site):
    b = utf8_error(I, st, args[0])
    if b is None:
        return NotImplemented
    try:
        b.decode()
    except UnicodeDecodeError as e:
        return R(st, NONE if e.reason == 'unexpected end of data' else some(I_(e.end - e.start, 'u8')))
    return NotImplemented


# ------------------------------------------------------------------- String edits
def edit(f):
    """a change of a String / Vec of known elements at a known place"""
    def m(I, fr, st, info, args, site):
        v = I.deref(st, args[0])
        xs = [st.norm(I.content(st, a)) for a in args[1:]]
        r = f(I, fr, st, v, xs)
        if r is None:
            return NotImplemented
        if r == 'panic':
            return pan(I, fr, st, info.method + ' out of bounds')
        nv, ret = r
        store(I, st, args[0], nv)
        return R(st, ret)
    return m


def _s_insert(I, fr, st, v, xs):
    b, i, c = conc(v), xs[0], xs[1]
    if b is None or i.op != 'i' or c.op != 'i':
        return None
    if i.a[0] > len(b):
        return 'panic'
    return bseq(b[:i.a[0]] + chr(c.a[0]).encode() + b[i.a[0]:]), UNIT


def _s_pop(I, fr, st, v, xs):
    t = text(v)
    if t is None:
        return None
    return (v, NONE) if not t else (u8s(t[:-1]), some(chr_(t[-1])))


def _s_remove(I, fr, st, v, xs):
    t = text(v)
    if t is None or xs[0].op != 'i':
        return None
    k = xs[0].a[0]
    if k >= len(t.encode()):
        return 'panic'
    c = t.encode()[k:].decode('utf8', 'ignore')[0]
    return bseq(t.encode()[:k] + t.encode()[k + len(c.encode()):]), chr_(c)


POST['String:insert'] = edit(_s_insert)
POST['String:pop'] = edit(_s_pop)
POST['String:remove'] = edit(_s_remove)


@post('String:drain', 'Vec:drain')
def _drain(I, fr, st, info, args, site):
    if target(I, st, args[0]) is None:
        return NotImplemented
    v = I.deref(st, args[0])
    rg = range_of(I, st, args[1], None)
    if rg is None:
        return NotImplemented

    def okf(s, lo, hi):
        cut = slice_at(s, v, lo, hi)
        rest = concat(slice_at(s, v, I_(0), lo), slice_at(s, v, hi, None) if hi is not None else EMPTY)
        store(I, s, args[0], s.norm(rest))
        return R(s, IT('items', cut))
    return check_range(I, fr, st, v, rg[0], rg[1], okf, lambda s: pan(I, fr, s, 'drain range out of bounds'))


@post('Vec:dedup')
def _dedup(I, fr, st, info, args, site):
    e = elems(expand(st.norm(I.deref(st, args[0]))))
    if e is None:
        return NotImplemented
    cur = [(st, [])]
    for x in e:
        nx = []
        for s, acc in cur:
            if not acc:
                nx.append((s, [x]))
                continue
            for same_, s2 in fork_eq(I, s, acc[-1], x):
                nx.append((s2, acc if same_ else acc + [x]))
        cur = nx
    r = []
    for s, acc in cur:
        store(I, s, args[0], eseq(acc))
        r += R(s, UNIT)
    return r


def retain(I, fr, st, info, args, site):
    v = st.norm(I.deref(st, args[0]))
    string = info.self_ty is not None and info.self_ty.n == 'String'
    e = elems(expand(v)) if not string else ([chr_(c) for c in text(v)] if text(v) is not None else known_ascii(st, v))
    if e is None:
        return NotImplemented
    f, cell = closure_arg(I, fr, st, args[1], site)
    outs, cur = [], [(st, [])]
    for x in e:
        nx = []
        for s, acc in cur:
            for o in I.call_value(fr, s, f, [x], site):
                if o.kind != 'ret':
                    outs.append(o)
                    continue
                for k, s2 in I.fork_bool(o.st, o.v):
                    nx.append((s2, acc + [x] if k else acc))
        cur = nx
    for s, acc in cur:
        store(I, s, args[0], bseq(''.join(chr(x.a[0]) for x in acc).encode()) if string and all(x.op == 'i' for x in acc) else eseq(acc))
        outs.append(Out('ret', UNIT, s))
    return finish(I, cell, outs)


POST['String:retain'] = retain
POST['Vec:retain'] = retain


@post('[]:join')
def _join(I, fr, st, info, args, site):
    e = elems(expand(st.norm(I.content(st, args[0]))))
    if e is None:
        return NotImplemented
    sep = I.content(st, args[1])
    if sep.op == 'i':
        sep = eseq([sep])
    out = []
    for k, x in enumerate(e):
        out += ([sep] if k else []) + [I.content(st, x)]
    return R(st, concat(*out))


# ---------------------------------------------------------------- mutable parts of a slice
def part(tg, lo, hi):
    return T('ref', (tg[0], tg[1] + (('sl', lo, hi),)))


@post('[]:split_at_mut', 'Vec:split_at_mut')
def _sam(I, fr, st, info, args, site):
    tg = target(I, st, args[0])
    if tg is None:
        return POST['[]:split_at'](I, fr, st, info, args, site)
    v, n = I.deref(st, args[0]), st.norm(args[1])
    r = []
    for bad, s in I.fork_bool(st, lt(st.norm(length(v)), n)):
        r += pan(I, fr, s, 'split_at out of bounds') if bad else R(s, tup(part(tg, I_(0), n), part(tg, n, None)))
    return r


@post('[]:split_first_mut', 'Vec:split_first_mut', '[]:split_last_mut', 'Vec:split_last_mut')
def _sfm(I, fr, st, info, args, site):
    tg = target(I, st, args[0])
    if tg is None:
        return NotImplemented
    v = I.deref(st, args[0])
    r = []
    for emp, s in I.fork_bool(st, is_empty_t(st, v)):
        if emp:
            r += R(s, NONE)
        elif info.method == 'split_first_mut':
            r += R(s, some(tup(T('ref', (tg[0], tg[1] + (('ix', I_(0)),))), part(tg, I_(1), None))))
        else:
            ix = s.norm(sub(length(v), I_(1)))
            r += R(s, some(tup(T('ref', (tg[0], tg[1] + (('ix', ix),))), part(tg, I_(0), ix))))
    return r


@post('[]:chunks_mut', '[]:chunks_exact_mut')
def _chm(I, fr, st, info, args, site):
    tg = target(I, st, args[0])
    n = st.norm(args[1])
    L = st.norm(length(I.deref(st, args[0])))
    if tg is None or n.op != 'i' or L.op != 'i' or L.a[0] > 64:
        return NotImplemented
    if n.a[0] == 0:
        return pan(I, fr, st, 'chunk size zero')
    L, n = L.a[0], n.a[0]
    ends = [(i, min(i + n, L)) for i in range(0, L, n)]
    if info.method == 'chunks_exact_mut':
        ends = [x for x in ends if x[1] - x[0] == n]
    return R(st, items([part(tg, I_(a), I_(b)) for a, b in ends]))


@post('[]:rchunks', '[]:rchunks_exact')
def _rch(I, fr, st, info, args, site):
    v, n = st.norm(I.deref(st, args[0])), st.norm(args[1])
    L = st.norm(length(v))
    if n.op != 'i' or L.op != 'i' or L.a[0] > 64:
        return NotImplemented
    if n.a[0] == 0:
        return pan(I, fr, st, 'chunk size zero')
    L, n = L.a[0], n.a[0]
    ends = [(max(i - n, 0), i) for i in range(L, 0, -n)]
    if info.method == 'rchunks_exact':
        ends = [x for x in ends if x[1] - x[0] == n]
    return R(st, items([slice_at(st, v, I_(a), I_(b)) for a, b in ends]))


@post('ChunksExact:remainder')
def _chrem(I, fr, st, info, args, site):
    it = I.deref(st, args[0])
    if it.op != 'iter' or it.a[0] != 'chunks_exact':
        return NotImplemented
    v, n = st.norm(it.a[1]), st.norm(it.a[2])
    L = st.norm(length(v))
    if L.op == 'i' and n.op == 'i':
        return R(st, slice_at(st, v, I_(L.a[0] - L.a[0] % n.a[0]), None))
    r = []
    # the chunks are used up once less than one chunk is left
    for few, s in I.fork_bool(st, lt(L, n)):
        if few:
            r += R(s, v)
        else:
            cut = I.binop(s, 'Rem', L, n, 'usize')
            r += R(s, slice_at(s, v, s.norm(sub(L, cut)), None))
    return r


def permute(f):
    def m(I, fr, st, info, args, site):
        if target(I, st, args[0]) is None:
            return NotImplemented
        e = elems(expand(st.norm(I.deref(st, args[0]))))
        if e is None:
            return NotImplemented
        r = f(I, fr, st, e, [st.norm(a) for a in args[1:]], site)
        if r is None:
            return NotImplemented
        if r == 'panic':
            return pan(I, fr, st, info.method + ' out of bounds')
        outs = []
        for s, xs in r:
            store(I, s, args[0], eseq(xs))
            outs += R(s, UNIT)
        return outs
    return m


def _rot(d):
    def f(I, fr, st, e, a, site):
        if a[0].op != 'i':
            return None
        k = a[0].a[0]
        if k > len(e):
            return 'panic'
        k = k if d > 0 else len(e) - k
        return [(st, e[k:] + e[:k])]
    return f


POST['[]:rotate_left'] = permute(_rot(1))
POST['[]:rotate_right'] = permute(_rot(-1))


@post('[]:swap', 'Vec:swap')
def _swap(I, fr, st, info, args, site):
    tg = target(I, st, args[0])
    if tg is None:
        return NotImplemented
    v = I.deref(st, args[0])
    i, j = st.norm(args[1]), st.norm(args[2])
    n = st.norm(length(v))
    r = []
    for a, s in I.fork_bool(st, lt(i, n)):
        if not a:
            r += pan(I, fr, s, 'swap index out of bounds')
            continue
        for b, s2 in I.fork_bool(s, lt(j, n)):
            if not b:
                r += pan(I, fr, s2, 'swap index out of bounds')
                continue
            x, y = I.idx(s2, v, i), I.idx(s2, v, j)
            I.put(s2, tg[0], tg[1] + (('ix', i),), y)
            I.put(s2, tg[0], tg[1] + (('ix', j),), x)
            r += R(s2, UNIT)
    return r


@post('[]:copy_within')
def _cpw(I, fr, st, info, args, site):
    tg = target(I, st, args[0])
    v = I.deref(st, args[0])
    rg = range_of(I, st, args[1], None)
    d = st.norm(args[2])
    if tg is None or rg is None:
        return NotImplemented

    def okf(s, lo, hi):
        src = slice_at(s, v, lo, hi)
        end = s.norm(add(d, length(src)))
        r = []
        for bad, s2 in I.fork_bool(s, lt(s.norm(length(v)), end)):
            if bad:
                r += pan(I, fr, s2, 'copy_within out of bounds')
            else:
                I.put(s2, tg[0], tg[1] + (('sl', d, end),), src)
                r += R(s2, UNIT)
        return r
    return check_range(I, fr, st, v, rg[0], rg[1], okf, lambda s: pan(I, fr, s, 'copy_within out of bounds'))


# -------------------------------------------------------------------- orderings
ORD = {-1: 'Less', 0: 'Equal', 1: 'Greater'}


def intlike(st, t, base=None):
    return t.op in ('i', 'lin', 'len') or base in INTS or t in U8


def compare(I, st, a, b, base=None, d=0):
    """-> [(state, -1 | 0 | 1)], or None when the order is not known here"""
    a, b = st.norm(I.content(st, a)), st.norm(I.content(st, b))
    if d > 6:
        return None
    if a is b:
        return [(st, 0)]
    if intlike(st, a, base) and intlike(st, b, base):
        r = []
        for k, s in I.fork_bool(st, lt(a, b)):
            if k:
                r.append((s, -1))
            else:
                r += [(s2, 0 if e else 1) for e, s2 in I.fork_bool(s, eq(a, b))]
        return r
    xs = ys = None
    if a.op == 'seq' and b.op == 'seq':
        xs, ys = elems(a), elems(b)
    elif a.op == 'tup' and b.op == 'tup':
        xs, ys = list(a.a), list(b.a)
    elif a.op == 'adt' and b.op == 'adt' and a.a[1] is not None and b.a[1] is not None:
        if a.a[1] != b.a[1]:
            vs = [n for n, _ in I.P.variants(a.a[0]) or []]
            if a.a[1] not in vs or b.a[1] not in vs or a.a[0] not in ('Option', 'Result', 'Ordering'):
                return None
            return [(st, -1 if vs.index(a.a[1]) < vs.index(b.a[1]) else 1)]
        xs, ys = list(a.a[2]), list(b.a[2])
    if xs is None or ys is None:
        return None
    done, cur = [], [st]
    for x, y in zip(xs, ys):
        nx = []
        for s in cur:
            c = compare(I, s, x, y, 'u8' if a.op == 'seq' and (x in U8 or y in U8) else None, d + 1)
            if c is None:
                return None
            for s2, k in c:
                if k:
                    done.append((s2, k))
                else:
                    nx.append(s2)
        cur = nx
    k = (len(xs) > len(ys)) - (len(xs) < len(ys))
    return done + [(s, k) for s in cur]


def _rel(f, old):
    def m(I, fr, st, info, args, site):
        r = old(I, fr, st, info, args, site) if old else NotImplemented
        if r is not NotImplemented:
            return r
        if info.base_ty is not None and local(I, fr, info):
            return NotImplemented
        c = compare(I, st, args[0], args[1], info.base)
        return NotImplemented if c is None else [Out('ret', B(f(k)), s) for s, k in c]
    return m


def local(I, fr, info):
    """types of the analysed crates have an order of their own"""
    n = info.base_ty.n
    return n in I.P.structs or n in I.P.enums


for _m, _f in (('lt', lambda k: k < 0), ('le', lambda k: k <= 0), ('gt', lambda k: k > 0), ('ge', lambda k: k >= 0)):
    POST['PartialOrd:' + _m] = _rel(_f, POST['PartialOrd:' + _m])
_oldcmp = POST['Ord:cmp']


@post('Ord:cmp', 'PartialOrd:partial_cmp')
def _cmp2(I, fr, st, info, args, site):
    if info.base in INTS:
        return _oldcmp(I, fr, st, info, args, site)
    c = compare(I, st, args[0], args[1], info.base) if not (info.base_ty is not None and local(I, fr, info)) else None
    if c is None:
        return _oldcmp(I, fr, st, info, args, site)
    w = some if info.method == 'partial_cmp' else lambda x: x
    return [Out('ret', w(adt('Ordering', ORD[k])), s) for s, k in c]


@post('cmp:min', 'cmp::min', 'cmp:max', 'cmp::max')
def _cmpmin(I, fr, st, info, args, site):
    mx = info.key.endswith('max')
    c = compare(I, st, args[0], args[1], info.gen[0].n if info.gen else None)
    if c is None:
        return NotImplemented
    return [Out('ret', (args[0] if k > 0 else args[1]) if mx else (args[1] if k > 0 else args[0]), s) for s, k in c]


_oldmax = POST['Ord:max']


@post('Ord:max', 'Ord:min')
def _max2(I, fr, st, info, args, site):
    if info.base in INTS:
        return _oldmax(I, fr, st, info, args, site)
    c = compare(I, st, args[0], args[1], info.base)
    if c is None:
        return NotImplemented
    mx = info.method == 'max'
    return [Out('ret', (args[0] if k > 0 else args[1]) if mx else (args[1] if k > 0 else args[0]), s) for s, k in c]


def best(key, mx, by):
    """Iterator::max/min and their _by/_by_key forms: the last of equal maxima, the first of equal minima"""
    def m(I, fr, st, it, info, args, site):
        f, cell = closure_arg(I, fr, st, args[1], site) if by else (None, None)

        def step(s, a, e):
            if a is NONE:
                if by == 'key':
                    return callf(I, fr, s, f, [e], site, lambda s2, v: [('go', s2, some(tup(e, v)))])
                return [('go', s, some(tup(e, e)))]
            old, ok_ = a.a[2][0].a

            def pick(s2, k, kv):
                take = k >= 0 if mx else k < 0          # k: new against old
                return ('go', s2, some(tup(e, kv)) if take else a)

            def cmpk(s2, kv):
                c = compare(I, s2, kv, ok_)
                if c is None:
                    raise Unsupported('order of ' + show(kv)[:40])
                return [pick(s3, k, kv) for s3, k in c]
            if by == 'key':
                return callf(I, fr, s, f, [e], site, cmpk)
            if by == 'cmp':
                def fromord(s2, v):
                    v = I.deref(s2, v)
                    if v.op != 'adt':
                        raise Unsupported('order')
                    return [pick(s2, {'Less': -1, 'Equal': 0, 'Greater': 1}[v.a[1]], e)]
                if mx:
                    return callf(I, fr, s, f, [e, old], site, fromord)
                return callf(I, fr, s, f, [e, old], site, fromord)
            return cmpk(s, e)
        ends, stops, outs = drive(I, fr, st, it, NONE, step, site)
        r = []
        for s, a in ends:
            if a.op != 'adt':
                r.append(Out('ret', app('call:Iterator:' + key, a), s))
            else:
                r.append(Out('ret', some(a.a[2][0].a[0]) if a is not NONE else NONE, s))
        return finish(I, cell, outs + r)
    return fold_model(m)


for _mx, _n in ((True, 'max'), (False, 'min')):
    POST['Iterator:' + _n] = best(_n, _mx, None)
    POST['Iterator:%s_by' % _n] = best(_n, _mx, 'cmp')
    POST['Iterator:%s_by_key' % _n] = best(_n, _mx, 'key')


def sorter(I, fr, st, e, a, site, by=None, f=None):
    """insertion sort, stable; forks where the order is not known"""
    if len(e) > 24:
        return None
    cur = [(st, [])]
    for x in e:
        nx = []
        for s, acc in cur:
            todo = [(s, len(acc))]
            while todo:
                s1, k = todo.pop()
                if k == 0:
                    nx.append((s1, [x] + acc))
                    continue
                c = by(s1, x, acc[k - 1])
                if c is None:
                    return None
                for s2, o in c:
                    if o < 0:
                        todo.append((s2, k - 1))
                    else:
                        nx.append((s2, acc[:k] + [x] + acc[k:]))
        cur = nx
        if len(cur) > 200:
            return None
    return cur


def sort_model(kind):
    def m(I, fr, st, info, args, site):
        def one(s, f, xs):
            rs = I.call_value(fr, s, f, xs, site)
            if any(o.kind != 'ret' for o in rs):
                raise Forks
            return rs

        def by(s, x, y):
            if kind == 'plain':
                return compare(I, s, x, y)
            if kind == 'key':
                r = []
                for o in one(s, args[1], [x]):
                    for p in one(o.st, args[1], [y]):
                        c = compare(I, p.st, o.v, p.v)
                        if c is None:
                            return None
                        r += c
                return r
            r = []
            for o in one(s, args[1], [x, y]):
                v = I.deref(o.st, o.v)
                if v.op != 'adt':
                    return None
                r.append((o.st, {'Less': -1, 'Equal': 0, 'Greater': 1}[v.a[1]]))
            return r
        try:
            return permute(lambda I2, fr2, s, e, a, si: sorter(I2, fr2, s, e, a, si, by))(I, fr, st, info, args, site)
        except Forks:
            return NotImplemented
    return m


for _p in ('[]:', 'Vec:'):
    for _u in ('sort', 'sort_unstable'):
        POST[_p + _u] = sort_model('plain')
        POST[_p + _u + '_by'] = sort_model('cmp')
        POST[_p + _u + '_by_key'] = sort_model('key')
POST['[]:sort_by_cached_key'] = sort_model('key')


# ------------------------------------------------------------------ iterators
@post('Iterator:skip_while')
def _skipwhile(I, fr, st, info, args, site):
    return R(st, IT('skip_while', to_iter(I, st, args[0], info.self_ty), args[1], FALSE))


@post('iter:zip', 'iter::zip')
def _izip(I, fr, st, info, args, site):
    return R(st, IT('zip', to_iter(I, st, args[0]), to_iter(I, st, args[1])))


@post('iter:repeat_with', 'iter::repeat_with')
def _irw(I, fr, st, info, args, site):
    return R(st, IT('repeat_with', args[0]))


@post('iter:successors', 'iter::successors')
def _isucc(I, fr, st, info, args, site):
    return R(st, IT('successors', args[0], args[1]))


_nxt0 = M.nxt


def nxt2(I, fr, st, it, site, outs, base=None):
    if it.op == 'iter':
        k = it.a[0]
        if k == 'skip_while':
            r = []
            for over, s in I.fork_bool(st, st.norm(it.a[3])):
                for s2, i2, e in M.nxt(I, fr, s, it.a[1], site, outs):
                    if over or e is None or e is SKIP:
                        r.append((s2, IT(k, i2, it.a[2], B(over)), e))
                        continue
                    for f2, o in call_iter_fn(I, fr, s2, it.a[2], [e], site):
                        if o.kind != 'ret':
                            outs.append(o)
                            continue
                        for b, s3 in I.fork_bool(o.st, o.v):
                            r.append((s3, IT(k, i2, f2, B(not b)), SKIP if b else e))
            return r
        if k == 'repeat_with':
            r = []
            for f2, o in call_iter_fn(I, fr, st, it.a[1], [], site):
                if o.kind != 'ret':
                    outs.append(o)
                else:
                    r.append((o.st, IT(k, f2), o.v))
            return r
        if k == 'successors':
            r = []
            for s, x in I.opt(st, it.a[1]):
                if x is None:
                    r.append((s, it, None))
                    continue
                for f2, o in call_iter_fn(I, fr, s, it.a[2], [x], site):
                    if o.kind != 'ret':
                        outs.append(o)
                    else:
                        r.append((o.st, IT(k, o.v, f2), x))
            return r
    return _nxt0(I, fr, st, it, site, outs, base)


M.nxt = nxt2
_back0 = M.nxt_back


def listed(I, fr, st, it, site, n=256):
    """all the items of an iterator whose steps do not fork"""
    r, s = [], st
    for _ in range(n):
        outs = []
        x = M.nxt(I, fr, s, it, site, outs)
        if len(x) != 1 or outs:
            return None
        s, it, e = x[0]
        if e is None:
            return s, r
        if e is not SKIP:
            r.append(e)
    return None


def back2(I, fr, st, it, site, outs):
    if it.op != 'iter':
        it = to_iter(I, st, it)
    if it.op == 'iter':
        k = it.a[0]
        if k == 'rangei':
            lo, hi = st.norm(it.a[1]), st.norm(it.a[2])
            r = []
            for bad, s in I.fork_bool(st, lt(hi, lo)):
                # lo..=hi from the back is lo..(hi+1)
                if bad:
                    r.append((s, IT('rev', it), None))
                else:
                    r.append((s, IT('rev', IT('range', lo, hi)), hi))
            return r
        if k not in ('items', 'range', 'map', 'rev'):
            x = listed(I, fr, st.copy(), it, site)
            if x is not None:
                return _back0(I, fr, x[0], items(x[1]), site, outs)
    return _back0(I, fr, st, it, site, outs)


M.nxt_back = back2


@post('DoubleEndedIterator:next_back', 'Iterator:next_back')
def _nextback(I, fr, st, info, args, site):
    if target(I, st, args[0]) is None:
        return NotImplemented
    it = I.deref(st, args[0])
    if it.op != 'iter' and not (it.op == 'adt' and it.a[0] in ('Range', 'RangeInclusive')):
        return NotImplemented
    outs, r = [], []
    for s, i2, x in M.nxt_back(I, fr, st, to_iter(I, st, it), site, outs):
        if x is SKIP:
            return NotImplemented
        store(I, s, args[0], i2.a[1])
        r += R(s, NONE if x is None else some(x))
    return outs + r


@post('DoubleEndedIterator:rfind')
def _rfindit(I, fr, st, info, args, site):
    it = I.deref(st, args[0])
    if it.op != 'iter':
        return NotImplemented
    return POST['Iterator:find'](I, fr, st, info, [IT('rev', it)] + list(args[1:]), site)


@post('ExactSizeIterator:len')
def _eslen(I, fr, st, info, args, site):
    it = I.deref(st, args[0])
    if it.op == 'adt' and it.a[0] == 'Range':
        lo, hi = st.norm(it.a[2][0]), st.norm(it.a[2][1])
        return [Out('ret', s.norm(sub(hi, lo)) if k else I_(0), s) for k, s in I.fork_bool(st, lt(lo, hi))]
    while it.op == 'iter' and it.a[0] in ('map', 'enumerate', 'rev', 'inspect'):
        it = it.a[1]
    if it.op == 'iter' and it.a[0] == 'items':
        return R(st, st.norm(length(it.a[1])))
    if it.op == 'iter' and it.a[0] == 'itermut':
        return R(st, st.norm(sub(length(I.get(st, it.a[1].a[0], it.a[1].a[1])), it.a[2])))
    if it.op == 'iter' and it.a[0] == 'range':
        lo, hi = st.norm(it.a[1]), st.norm(it.a[2])
        return [Out('ret', s.norm(sub(hi, lo)) if k else I_(0), s) for k, s in I.fork_bool(st, lt(lo, hi))]
    return NotImplemented


@post('Range:is_empty', 'RangeInclusive:is_empty')
def _rie(I, fr, st, info, args, site):
    r = I.deref(st, args[0])
    if r.op != 'adt' or r.a[0] not in ('Range', 'RangeInclusive'):
        return NotImplemented
    lo, hi = st.norm(r.a[2][0]), st.norm(r.a[2][1])
    c = lt(hi, lo) if r.a[0] == 'RangeInclusive' else NOT(lt(lo, hi))
    return [Out('ret', B(k), s) for k, s in I.fork_bool(st, st.norm(c))]


@post('[]:map')
def _arrmap(I, fr, st, info, args, site):
    e = elems(expand(st.norm(I.deref(st, args[0]))))
    if e is None:
        return NotImplemented
    f, cell = closure_arg(I, fr, st, args[1], site)
    outs, cur = [], [(st, [])]
    for x in e:
        nx = []
        for s, acc in cur:
            for o in I.call_value(fr, s, f, [x], site):
                if o.kind != 'ret':
                    outs.append(o)
                else:
                    nx.append((o.st, acc + [o.v]))
        cur = nx
    return finish(I, cell, outs + [Out('ret', eseq(acc), s) for s, acc in cur])


@post('Result:is_ok_and')
def _rioa(I, fr, st, info, args, site):
    return M.r_or(I, st, args[0], lambda s, x: I.call_value(fr, s, args[1], [x], site), lambda s, e: R(s, FALSE))


# ------------------------------------------------------------------- integers
for _ty in INTS:
    def _i1(m, ty):
        def f(I, fr, st, info, args, site):
            xs = [st.norm(I.deref(st, a)) for a in args]
            bits = MASK[ty]
            lo, hi = lo_hi(ty)
            a = xs[0].a[0] if xs[0].op == 'i' else None
            b = xs[1].a[0] if len(xs) > 1 and xs[1].op == 'i' else None
            if m == 'wrapping_neg':
                v = I.binop(st, 'Sub', I_(0, ty), xs[0], ty)
                return R(st, v if v.op == 'i' else app('wrap', v, ty))
            if m in ('div_euclid', 'rem_euclid') and lo == 0:
                r = []
                for z, s in I.fork_bool(st, eq(xs[1], I_(0, ty))):
                    r += pan(I, fr, s, 'attempt to divide by zero') if z else R(s, I.binop(s, 'Div' if m[0] == 'd' else 'Rem', xs[0], xs[1], ty))
                return r
            if m == 'checked_neg':
                if lo < 0:
                    return NotImplemented
                return [Out('ret', some(I_(0, ty)) if k else NONE, s) for k, s in I.fork_bool(st, eq(xs[0], I_(0, ty)))]
            if m in ('checked_shl', 'checked_shr', 'wrapping_shl', 'wrapping_shr'):
                if b is None:
                    return NotImplemented
                if m.startswith('checked') and not 0 <= b < bits:
                    return R(st, NONE)
                v = I.binop(st, 'Shl' if m.endswith('l') else 'Shr', xs[0], I_(b % bits, 'u32'), ty)
                return R(st, some(v) if m.startswith('checked') else v)
            if a is None or len(xs) > 1 and b is None:
                return NotImplemented
            fit = lambda v: lo <= v <= hi
            if m == 'checked_pow':
                return R(st, some(I_(a ** b, ty)) if fit(a ** b) else NONE)
            if m == 'saturating_pow':
                return R(st, I_(min(max(a ** b, lo), hi), ty))
            if m == 'wrapping_pow':
                return R(st, I_(wrap(a ** b, ty), ty))
            if m == 'pow':
                return R(st, I_(a ** b, ty)) if fit(a ** b) else pan(I, fr, st, 'attempt to multiply with overflow')
            if m == 'overflowing_mul':
                return R(st, tup(I_(wrap(a * b, ty), ty), B(not fit(a * b))))
            if m in ('rotate_left', 'rotate_right'):
                u = a & ((1 << bits) - 1)
                k = (b if m.endswith('left') else -b) % bits
                return R(st, I_(wrap((u << k | u >> (bits - k)) & ((1 << bits) - 1), ty), ty))
            if m == 'trailing_zeros':
                u = a & ((1 << bits) - 1)
                return R(st, I_(bits if not u else (u & -u).bit_length() - 1, 'u32'))
            if m == 'next_power_of_two':
                return R(st, I_(1 << max(a - 1, 0).bit_length(), ty)) if fit(1 << max(a - 1, 0).bit_length()) else pan(I, fr, st, 'overflow')
            if m in ('abs', 'unsigned_abs'):
                return R(st, I_(abs(a), ty if m == 'abs' else ty.replace('i', 'u', 1))) if m != 'abs' or fit(abs(a)) else pan(I, fr, st, 'overflow')
            if m == 'signum':
                return R(st, I_((a > 0) - (a < 0), ty))
            if m in ('ilog2', 'ilog10', 'checked_ilog2', 'checked_ilog10'):
                v = None if a <= 0 else a.bit_length() - 1 if m.endswith('2') else len(str(a)) - 1
                if m.startswith('checked'):
                    return R(st, NONE if v is None else some(I_(v, 'u32')))
                return pan(I, fr, st, 'logarithm of zero') if v is None else R(st, I_(v, 'u32'))
            return NotImplemented
        return f
    for _m in ('wrapping_neg', 'div_euclid', 'rem_euclid', 'checked_neg', 'checked_shl', 'checked_shr', 'wrapping_shl', 'wrapping_shr', 'checked_pow',
               'saturating_pow', 'wrapping_pow', 'pow', 'overflowing_mul', 'rotate_left', 'rotate_right', 'trailing_zeros', 'next_power_of_two', 'abs',
               'unsigned_abs', 'signum', 'ilog2', 'ilog10', 'checked_ilog2', 'checked_ilog10'):
        _old = POST.get('%s:%s' % (_ty, _m))

        def _both(I, fr, st, info, args, site, new=_i1(_m, _ty), old=_old):
            r = new(I, fr, st, info, args, site)
            return old(I, fr, st, info, args, site) if r is NotImplemented and old else r
        POST['%s:%s' % (_ty, _m)] = _both


@post('convert:identity', 'convert::identity')
def _identity(I, fr, st, info, args, site):
    return R(st, args[0])


@post('Vec:capacity', 'String:capacity')
def _cap(I, fr, st, info, args, site):
    """at least the length; nothing else is promised"""
    v = I.deref(st, args[0])
    c = app('capacity', v)
    r = []
    for k, s in I.fork_bool(st, NOT(lt(c, st.norm(length(v))))):
        if k:
            r += R(s, c)
    return r


# ------------------------------------------------------------------ io writers
def slice_writer(I, st, w):
    """the place that holds a `&mut [u8]` writer, and the slice it still may fill"""
    hold, n = w, 0
    while hold.op == 'ref' and n < 8:
        x = I.get(st, hold.a[0], hold.a[1])
        if x.op != 'ref':
            return None
        y = I.get(st, x.a[0], x.a[1])
        if y.op != 'ref':
            return hold, x
        hold = x
        n += 1
    return None


def is_slice_ty(t):
    while t is not None and t.n in ('&', '&mut') and t.a:
        t = t.a[0]
    return t is not None and t.n in ('[]', '[;]')


def own_cursor(I, st, w):
    tg = target(I, st, w)
    if tg is None:
        return None, None
    c = I.get(st, tg[0], tg[1])
    return (tg, c) if c.op == 'adt' and c.a[0] == 'Cursor' else (None, None)


def _write2(all_, old):
    def m(I, fr, st, info, args, site):
        data = st.norm(I.content(st, args[1]))
        tg, c = own_cursor(I, st, args[0])
        if c is not None and c.a[1] == 'owned':
            I.put(st, tg[0], tg[1], adt('Cursor', 'owned', concat(c.a[2][0], data)))
            return R(st, ok(UNIT if all_ else length(data)))
        if c is None and info.base == 'Vec' and args[0].op == 'ref':
            x, n = args[0], 0
            while x.op == 'ref' and n < 8 and I.get(st, x.a[0], x.a[1]).op == 'ref':
                x, n = I.get(st, x.a[0], x.a[1]), n + 1
            I.put(st, x.a[0], x.a[1], concat(I.get(st, x.a[0], x.a[1]), data))
            return R(st, ok(UNIT if all_ else length(data)))
        if c is None and is_slice_ty(info.self_ty):
            h = slice_writer(I, st, args[0])
            if h is None:
                return NotImplemented
            hold, dst = h
            room = st.norm(length(I.get(st, dst.a[0], dst.a[1])))
            n = st.norm(length(data))
            r = []
            for small, s in I.fork_bool(st, lt(room, n)):
                k = room if small else n
                part_ = slice_at(s, data, I_(0), k)
                I.put(s, dst.a[0], dst.a[1] + (('sl', I_(0), k),), part_)
                I.put(s, hold.a[0], hold.a[1], T('ref', (dst.a[0], dst.a[1] + (('sl', k, None),))))
                r += R(s, (err(app('io', sym('write_zero'))) if small else ok(UNIT)) if all_ else ok(k))
            return r
        return old(I, fr, st, info, args, site)
    return m


POST['Write:write'] = POST['io::Write:write'] = _write2(False, POST['Write:write'])
POST['Write:write_all'] = _write2(True, POST['Write:write_all'])
_oldcn = POST['Cursor:new']


@post('Cursor:new')
def _cn2(I, fr, st, info, args, site):
    if args[0] is EMPTY:
        return R(st, adt('Cursor', 'owned', EMPTY))
    return _oldcn(I, fr, st, info, args, site)


@post('Cursor:into_inner', 'Cursor:position', 'Cursor:get_ref')
def _cget(I, fr, st, info, args, site):
    c = I.deref(st, args[0])
    if c.op != 'adt' or c.a[0] != 'Cursor':
        return NotImplemented
    if info.method == 'position':
        v = c.a[2][1] if c.a[1] == 'slice' else I.deref(st, c.a[2][0])
        return R(st, st.norm(length(v)))
    return NotImplemented if c.a[1] == 'slice' else R(st, c.a[2][0])


# ------------------------------------------------------------------ Cow
def _cow(old):
    def m(I, fr, st, info, args, site):
        v = I.deref(st, args[0])
        if v.op == 'adt' and v.a[0] == 'Cow':
            return R(st, I.deref(st, v.a[2][0]))
        return old(I, fr, st, info, args, site)
    return m


for _k in ('Cow:Deref:deref', 'Cow:into_owned', 'Cow:Borrow:borrow'):
    POST[_k] = _cow(POST[_k])
POST['Cow:AsRef:as_ref'] = POST['Cow:Deref:deref']
POST['Cow:to_mut'] = lambda *a: NotImplemented
POST['Cow:is_empty'] = lambda I, fr, st, info, args, site: POST['[]:is_empty'](I, fr, st, info, [POST['Cow:Deref:deref'](I, fr, st, info, args, site)[0].v], site)


@post('ControlFlow:is_break', 'ControlFlow:is_continue')
def _cfb(I, fr, st, info, args, site):
    return [Out('ret', B((var == 'Break') == (info.method == 'is_break')), s)
            for s, var, _ in I.split(st, I.deref(st, args[0]), 'ControlFlow', {'Continue': 1, 'Break': 1})]


@post('String:into_boxed_str', 'str:into_string', 'str:into_boxed_bytes')
def _ibs(I, fr, st, info, args, site):
    return R(st, I.deref(st, args[0]))


_take0 = POST['Iterator:take']


def mut_items(I, st, it):
    """the references a mutable iterator over a slice of known length yields"""
    if it.op == 'iter' and it.a[0] == 'itermut':
        ref, pos = it.a[1], st.norm(it.a[2])
        n = st.norm(length(I.get(st, ref.a[0], ref.a[1])))
        if n.op == 'i' and pos.op == 'i' and n.a[0] <= 256:
            return items([T('ref', (ref.a[0], ref.a[1] + (('ix', I_(k)),))) for k in range(pos.a[0], n.a[0])])
    return it


_rev0 = POST['Iterator:rev']


@post('Iterator:rev')
def _rev2(I, fr, st, info, args, site):
    return R(st, IT('rev', mut_items(I, st, to_iter(I, st, args[0]))))


def _adapt_mut(kind):
    def m(I, fr, st, info, args, site):
        return R(st, IT(kind, mut_items(I, st, to_iter(I, st, args[0], info.self_ty)), args[1]))
    return m


for _k in ('skip', 'take', 'filter', 'take_while'):
    POST['Iterator:' + _k] = _adapt_mut(_k)


@post('Iterator:eq', 'Iterator:ne')
def _itereq(I, fr, st, info, args, site):
    """two byte sequences compared item by item: compared whole"""
    sq = []
    for a in args:
        it = to_iter(I, st, a)
        n = 0
        while it.op == 'iter' and it.a[0] in ('copied', 'cloned') and n < 4:
            it, n = it.a[1], n + 1
        if it.op != 'iter' or it.a[0] != 'items' or len(it.a) != 2 or elems(it.a[1]) is not None:
            return NotImplemented
        sq.append(it.a[1])
    return [Out('ret', B(k == (info.method == 'eq')), s) for k, s in fork_eq(I, st, sq[0], sq[1])]
