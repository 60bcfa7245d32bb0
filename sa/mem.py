"""Memory layout of the plain-data structs: values seen through a cast pointer.

A shared reference is its content, so a pointer cast changes which type the content is read as: bytes are split
into the fields of the new type (decode) or a struct is laid out as bytes (encode). Only layouts the sources fix
are known: integers, arrays, slices, structs of those (repr(C)/transparent; one field or all fields of alignment 1)."""
from dom import *
from program import pty, Ty

# written by a macro in byte-fmt: name -> bytes
PRIMS = {'U8': 1, 'U16': 2, 'U32': 4, 'U64': 8, 'U128': 16, 'LU16': 2, 'LU32': 4, 'LU64': 8, 'LU128': 16}


def crate_alias(P, ty):
    al = P.aliases.get('pkt') or {}
    return al.get(ty.n) if not ty.a else None


def expand(P, ty):
    for _ in range(8):
        t = crate_alias(P, ty)
        if t is None:
            return ty
        ty = t
    return ty


def subst(ty, env):
    if ty.n in env and not ty.a:
        return env[ty.n]
    return Ty(ty.n, [subst(x, env) for x in ty.a]) if ty.a else ty


def fields(P, ty):
    """field types of a struct, generics filled in"""
    ty = expand(P, ty)
    s = P.structs.get(ty.n.split('::')[-1])
    if s is None:
        return None
    gen, fs = s
    env = dict(zip(gen, ty.a))
    return [expand(P, subst(f, env)) for f in fs]


def array_n(t):
    import re
    m = re.match(r'\d+', t.a[1].n)
    return int(m.group(0)) if m else None


def size(P, ty):
    """(bytes, alignment) of a sized type with a known layout, else None"""
    ty = expand(P, ty)
    n = ty.n.split('::')[-1]
    if n in MASK and n not in ('usize', 'isize', 'char', 'bool'):
        k = max(1, MASK[n] // 8)
        return k, k
    if n in PRIMS and not ty.a:
        return PRIMS[n], 1
    if ty.n == '[;]':
        e, k = size(P, ty.a[0]), array_n(ty)
        return (e[0] * k, e[1]) if e and k is not None else None
    fs = fields(P, ty)
    if fs is None:
        return None
    off, al = 0, 1
    for f in fs:
        s = size(P, f)
        if s is None:
            return None
        off = -(-off // s[1]) * s[1] + s[0]
        al = max(al, s[1])
    return -(-off // al) * al, al


def layout(P, ty):
    """[(offset, type)] and the offset of an unsized last field (None when sized)"""
    fs = fields(P, ty)
    if fs is None:
        return None
    out, off = [], 0
    for i, f in enumerate(fs):
        s = size(P, f)
        if s is None:
            if i != len(fs) - 1:
                return None
            out.append((off, f))
            return out, off
        off = -(-off // s[1]) * s[1]
        out.append((off, f))
        off += s[0]
    return out, None


def unsized(P, ty):
    ty = expand(P, ty)
    if ty.n == '[]':
        return True
    fs = fields(P, ty)
    return bool(fs) and unsized(P, fs[-1])


def decode(P, ty, v):
    """the bytes v read as ty; None when the layout is not known"""
    ty = expand(P, ty)
    n = ty.n.split('::')[-1]
    if ty.n in ('[]', '[;]', 'Vec', 'str'):
        if ty.n in ('[]', '[;]') and repr(expand(P, ty.a[0])) != 'u8':
            es = size(P, ty.a[0])
            k = length(v)
            if es is None or k.op != 'i' or k.a[0] % es[0]:
                return None
            xs = [decode(P, ty.a[0], mk_slice(v, I(i), I(i + es[0]))) for i in range(0, k.a[0], es[0])]
            return None if None in xs else eseq(xs)
        return v
    if n == 'u8':
        return index(v, I(0))
    if n in PRIMS and not ty.a:
        return adt(n, None, v)
    lo = layout(P, ty)
    if lo is None:
        return None
    fs, tail = lo
    out = []
    for i, (off, f) in enumerate(fs):
        last = tail is not None and i == len(fs) - 1
        s = size(P, f)
        x = decode(P, f, mk_slice(v, I(off), None if last else I(off + s[0])) if (off or len(fs) > 1) else v)
        if x is None:
            return None
        out.append(x)
    return adt(n, None, *out)


def encode(v):
    """a plain value as bytes; None when it is not made of bytes"""
    if v.op == 'adt':
        out = EMPTY
        for i, x in enumerate(v.a[2]):
            b = encode(x)
            if b is None:
                return None
            out = concat(out, b) if i else b
        return out
    if v.op == 'i' and v.a[1] == 'u8':
        return eseq([v])
    if v.op in ('i',):
        return None
    if v in U8:
        return eseq([v])
    if v.op == 'seq' and any(k == 'e' and x.op == 'adt' for k, x in v.a):
        out = EMPTY
        for k, x in v.a:
            b = encode(x) if k == 'e' else T('seq', ((k, x),))
            if b is None:
                return None
            out = concat(out, b)
        return out
    return v
