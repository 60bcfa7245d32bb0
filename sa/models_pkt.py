"""Models used by the linkspace-pkt rules: raw pointers to plain data, and a few std adaptors."""
from dom import *
from dom import I as I_
from models import post, pre, R, pan, POST, PRE
from program import pty
import mem
import models


def pointee(I, info):
    return pty(repr(info.gen[0])) if info.gen else None


@post('[]:as_ptr', 'Vec:as_ptr', '[]:as_mut_ptr', 'str:as_ptr')
def _asptr(I, fr, st, info, args, site):
    return R(st, I.content(st, args[0]))


@post('ptr:from_raw_parts', 'ptr:from_raw_parts_mut')
def _frp(I, fr, st, info, args, site):
    ty = info.gen[0]
    b = mem.encode(I.content(st, args[0]))
    n = st.norm(args[1])
    if b is None or not mem.unsized(I.P, ty):
        return NotImplemented
    return cut(I, fr, st, b, n, ty)


@post('slice:from_raw_parts', 'slice:from_raw_parts_mut')
def _sfrp(I, fr, st, info, args, site):
    b = mem.encode(I.content(st, args[0]))
    if b is None or repr(info.gen[-1]) != 'u8':
        return NotImplemented
    return cut(I, fr, st, b, st.norm(args[1]), pty('[u8]'))


def cut(I, fr, st, b, n, ty):
    """the first n bytes behind a pointer, read as ty"""
    res = []
    for k, s in I.fork_bool(st, lt(length(b), n)):
        if k:
            res += pan(I, fr, s, 'view past the end of the memory behind the pointer')
        else:
            v = mk_slice(b, I_(0), None if n is s.norm(length(b)) else n)
            v = mem.decode(I.P, ty, v)
            if v is None:
                return NotImplemented
            res += R(s, v)
    return res



@post('Iterator:advance_by')
def _advance(I, fr, st, info, args, site):
    n = st.norm(args[1])
    it = args[0]
    v = I.deref(st, it)
    if n.op != 'i' or v.op not in ('iter', 'adt', 'seq'):
        return NotImplemented
    outs, r, todo = [], [], [(st, n.a[0])]
    while todo:
        s, k = todo.pop()
        if not k:
            r += R(s, ok(UNIT))
            continue
        for s2, i2, x in models.pull(I, fr, s, models.to_iter(I, s, it), site, outs):
            if x is None:
                r += R(s2, err(I_(k)))
            else:
                todo.append((s2, k - 1))
    return outs + r


@post('*:add', '*:offset')
def _padd(I, fr, st, info, args, site):
    b = mem.encode(I.content(st, args[0]))
    if b is None:
        return NotImplemented
    n = st.norm(args[1])
    res = []
    for k, s in I.fork_bool(st, lt(length(b), n)):
        if k:
            res += pan(I, fr, s, 'pointer past the end of the memory it points into')
        else:
            res += R(s, mk_slice(b, n, None))
    return res


@post('Option:unwrap_unchecked')
def _ouu(I, fr, st, info, args, site):
    res = []
    for s, x in I.opt(st, args[0]):
        res += R(s, x) if x is not None else pan(I, fr, s, 'unwrap_unchecked of None')
    return res


@post('Result:unwrap_unchecked')
def _ruu(I, fr, st, info, args, site):
    res = []
    for s, k, x in I.res(st, args[0]):
        res += R(s, x) if k else pan(I, fr, s, 'unwrap_unchecked of Err')
    return res


@post('[]:map')
def _amap(I, fr, st, info, args, site):
    es = elems(I.content(st, args[0]))
    if es is None:
        return NotImplemented
    outs, cur = [], [(st, [])]
    for e in es:
        nxt = []
        for s, done in cur:
            for o in I.call_value(fr, s, args[1], [e], site):
                if o.kind == 'ret':
                    nxt.append((o.st, done + [o.v]))
                else:
                    outs.append(o)
        cur = nxt
    return outs + [x for s, done in cur for x in R(s, eseq(done))]


class Cuts:
    """a cut of a sequence of known length at an unknown place is decided place by place"""
    KEYS = {'[]:split_at', '[]:split_at_mut', '[]:split_at_checked', '[]:get', '[]:get_mut', '[]:get_unchecked', 'Index:index', 'IndexMut:index_mut', '*:add', '*:offset', 'Vec:truncate',
            'Vec:split_off', 'Vec:drain', 'ptr:from_raw_parts', 'slice:from_raw_parts', '[]:split_at_unchecked', 'Iterator:advance_by', 'Iterator:nth'}
    LIMIT = 64

    def split(self, I, st, info, args):
        """[(state, args)] with every bound constant, or out of range; None when there is nothing to decide"""
        if len(args) < 2 or not any(k in self.KEYS for k in info.keys):
            return None
        x = I.content(st, args[0])
        n = known_len(x if x.op == 'seq' else mem.encode(x) or x)
        if n is None or n > self.LIMIT:
            return None
        a = I.content(st, args[1])
        parts = list(a.a[2]) if a.op == 'adt' else [a]
        todo = [(st, parts)]
        hit = False
        for j in range(len(parts)):
            if not isinstance(parts[j], T) or parts[j].op in ('i', 'ref', 'clo', 'fn', 'adt', 'seq'):
                continue
            nxt = []
            for s, ps in todo:
                b = s.norm(ps[j])
                if b.op == 'i':
                    nxt.append((s, ps[:j] + [b] + ps[j + 1:]))
                    continue
                hit = True
                for k in range(n + 1):
                    t = s.copy()
                    if t.assume(b, I_(k)) and not t.dead:
                        nxt.append((t, ps[:j] + [I_(k)] + ps[j + 1:]))
                t = s.copy()
                if t.assume(lt(I_(n), b), TRUE) and not t.dead:
                    nxt.append((t, ps[:j] + [I_(n + 1)] + ps[j + 1:]))
            todo = nxt
        if not hit:
            return None
        return [(s, [args[0], adt(a.a[0], a.a[1], *ps) if a.op == 'adt' else ps[0]] + list(args[2:])) for s, ps in todo]
