"""Abstract interpreter over MIR: forward fixpoint, trace partitioning on acyclic code,
congruence-preserving joins at loop heads, inlining of local callees."""
import re, sys
from dom import *
from program import Ty, pty, _gargs
from mirparse import split_top, find_close, find_top
import mirparse

sys.setrecursionlimit(20000)
PART = 96           # partitions kept apart at one program point
UNROLL = 700


class Unsupported(Exception):
    pass


class Frame:
    __slots__ = ('body', 'env', 'depth', 'crate', 'site', 'up', 'live', 'unr')

    def __init__(self, body, env, depth, site, up):
        self.body, self.env, self.depth, self.site, self.up = body, env, depth, site, up
        self.crate = body.crate
        self.unr = ()

    def where(self):
        f, out = self, []
        while f is not None:
            out.append(f.body.name)
            f = f.up
        return out


class Out:
    __slots__ = ('kind', 'v', 'st')

    def __init__(self, kind, v, st):
        self.kind, self.v, self.st = kind, v, st


class CFG:
    def __init__(self, body):
        n = len(body.blocks)
        self.succ = [[] for _ in range(n)]
        for i, (st, t, cl) in enumerate(body.blocks):
            k = t.kind
            if k == 'goto':
                s = [t.a]
            elif k == 'switch':
                s = [b for _, b in t.a[1]] + ([t.a[2]] if t.a[2] is not None else [])
            elif k == 'drop':
                s = [t.a[1]]
            elif k == 'assert':
                s = [t.a[-1]]
            elif k == 'call':
                s = [t.a[3]] if t.a[3] is not None else []
            elif k == 'yield':
                s = [t.a[-1]] if isinstance(t.a, tuple) and isinstance(t.a[-1], int) else []
            else:
                s = []
            self.succ[i] = [x for x in s if x is not None]
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        back = []
        on = {0}
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    on.add(v)
                    stack.append((v, iter(self.succ[v])))
                    break
                elif v in on:
                    back.append((u, v))
            else:
                stack.pop()
                on.discard(u)
                order.append(u)
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for u in order:
            for v in self.succ[u]:
                pred[v].append(u)
        self.loops = {}
        for u, h in back:
            L = self.loops.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x not in L:
                    L.add(x)
                    st += pred[x]
        # liveness of locals
        self.live = liveness(body, self.succ, order)


def place_uses(pl, out):
    out.add(pl[0])
    for p in pl[1]:
        if p[0] == 'index':
            out.add(p[1])


def op_uses(o, out):
    if o[0] in ('copy', 'move'):
        place_uses(o[1], out)


def rv_uses(rv, out):
    k = rv[0]
    if k in ('use', 'un', 'cast', 'repeat', 'box'):
        for x in rv[1:]:
            if isinstance(x, tuple) and x and x[0] in ('copy', 'move'):
                op_uses(x, out)
    elif k == 'bin':
        op_uses(rv[2], out)
        op_uses(rv[3], out)
    elif k in ('ref', 'addr'):
        place_uses(rv[2], out)
    elif k in ('len', 'discr'):
        place_uses(rv[1], out)
    elif k in ('array', 'tuple'):
        for x in rv[1]:
            op_uses(x, out)
    elif k == 'closure':
        for x in rv[2]:
            op_uses(x, out)
    elif k == 'adt':
        for x in rv[3]:
            op_uses(x, out)


def liveness(body, succ, order):
    n = len(body.blocks)
    use, dfn = [None] * n, [None] * n
    pinned = set()
    for i in order:
        st, t, _ = body.blocks[i]
        u, d = set(), set()
        for s in st:
            if s.kind == 'assign':
                x = set()
                rv_uses(s.rv, x)
                if s.rv[0] in ('ref', 'addr') and s.rv[1] == 'mut' and not any(p[0] == 'deref' for p in s.rv[2][1]):
                    pinned.add(s.rv[2][0])
                if s.place[1]:
                    place_uses(s.place, x)
                u |= x - d
                if not s.place[1]:
                    d.add(s.place[0])
        x = set()
        if t.kind == 'switch':
            op_uses(t.a[0], x)
        elif t.kind == 'drop':
            place_uses(t.a[0], x)
        elif t.kind == 'assert':
            op_uses(t.a[0], x)
            for o in t.a[3] if len(t.a) > 3 and isinstance(t.a[3], list) else []:
                op_uses(o, x)
        elif t.kind == 'call':
            if t.a[1][0] in ('copy', 'move'):
                op_uses(t.a[1], x)
            for o in t.a[2]:
                op_uses(o, x)
            if t.a[0][1]:
                place_uses(t.a[0], x)
        elif t.kind == 'return':
            x.add(0)
        elif t.kind == 'yield':
            x |= set(body.locals)
        u |= x - d
        use[i], dfn[i] = u, d
    live = {i: set() for i in order}
    ch = True
    ro = order[::-1]
    while ch:
        ch = False
        for i in ro:
            o = set()
            for s in succ[i]:
                o |= live.get(s, set())
            r = use[i] | (o - dfn[i])
            if r != live[i]:
                live[i] = r
                ch = True
    for i in live:
        live[i] |= pinned
    return live


def strip_gen(s):
    """path text without generic arguments: list of segments"""
    out = []
    for x in split_top(s, '::'):
        if x.startswith('<') and not x.startswith('<impl'):
            if not out and ' as ' in x:
                out.append(x)
            continue
        k = x.find('<')
        out.append(x[:k] if k > 0 else x)
    return out


def last_name(ty):
    t = ty
    while t.n in ('&', '&mut', '*'):
        t = t.a[0]
    return t.n


def int_const(ty, name):
    w = MASK[ty]
    if name == 'BITS':
        return I(w, 'u32')
    if name == 'MAX':
        return I((1 << (w - 1 if signed(ty) else w)) - 1, ty)
    return I(-(1 << w - 1) if signed(ty) else 0, ty)


def int_array(t):
    return t is not None and t.n == '[;]' and getattr(t.a[0], 'n', None) in MASK and t.a[0].n not in ('bool', 'char') and t.a[0].n or None


def align_of(t):
    """alignment of integers, arrays of them and the repr(transparent) wrappers of byte_fmt; None: not known"""
    if t.n in MASK:
        return max(1, MASK[t.n] // 8)
    if t.n == '[;]':
        return align_of(t.a[0])
    if t.n in ('B64', 'AB'):
        return align_of(t.a[0]) if t.a else 1
    return None


def regroup(v, src, dst):
    """the value of an array of integers (or a struct around one) as the array of another integer type in the same memory, on a little-endian machine"""
    from models import mk_to, mk_from, nbytes
    w = v
    while w.op == 'adt' and len(w.a[2]) == 1:
        w = w.a[2][0]
    es, f = elems(w), int_array(src)
    if es is None or f is None and src is not None and src.n == '[;]':
        return v
    t = int_array(dst)
    if t == f or t is None and (f is None or f == 'u8'):
        return v
    b = []
    for x in es:
        if f in (None, 'u8'):
            b.append(x)
        else:
            y = mk_to('le', x, f)
            b += list(elems(y)) if elems(y) is not None else [app('idx', y, I(i)) for i in range(nbytes(f))]
    if t in (None, 'u8'):
        return eseq(b)
    n = nbytes(t)
    if len(b) % n:
        return v
    return eseq([mk_from('le', eseq(b[i:i + n]), t) for i in range(0, len(b), n)])


class Interp:
    def __init__(self, P, hooks=None, models=None, max_depth=40, part=PART, unroll_width=8, recursion=2, table=False):
        self.table = table      # inputs of known length: unroll without a progress measure
        self.recursion = recursion
        self.part, self.unroll_width = part, unroll_width
        self.P = P
        self.hooks = hooks or []
        self.splits = [h.split for h in self.hooks if hasattr(h, 'split')]
        self.max_depth = max_depth
        if models is None:
            import models as M
            models = M.TABLE
        self.models = models
        self.cfgs = {}
        self.consts = {}
        if not hasattr(P, 'cvals'):
            P.cvals = {}
        self.cvals = P.cvals     # values of constants do not depend on the analysis
        self.loops = []         # recorded loop summaries (frame, head, H, backs)
        self.calls = []         # observations
        self.unknown = {}       # opaque callee -> count
        self.visited = set()    # bodies analysed
        self.steps = 0
        self.max_steps = 3000000
        self.nsites = 0
        self.log_keys = None    # predicate(key) -> bool : record events in state.log
        self.extern = {}        # caller-provided models
        self.fine = False

    def cfg(self, b):
        c = self.cfgs.get(id(b))
        if c is None:
            c = self.cfgs[id(b)] = CFG(b)
        return c

    # ------------------------------------------------------------ values
    def field(self, v, i, var=None):
        if v.op == 'adt':
            if i < len(v.a[2]):
                return v.a[2][i]
            return app('fld', v, var, i)
        if v.op == 'tup':
            return v.a[i] if i < len(v.a) else app('fld', v, var, i)
        if v.op == 'clo':
            return v.a[1][i]
        if v.op == 'upd':
            if v.a[1] == var and v.a[2] == i:
                return v.a[3]
            return self.field(v.a[0], i, var)
        return app('fld', v, var, i)

    def with_field(self, v, i, x, var=None):
        if v.op == 'adt' and i < len(v.a[2]):
            f = list(v.a[2])
            f[i] = x
            return T('adt', (v.a[0], v.a[1], tuple(f)))
        if v.op == 'tup' and i < len(v.a):
            f = list(v.a)
            f[i] = x
            return T('tup', tuple(f))
        if v.op == 'clo':
            f = list(v.a[1])
            f[i] = x
            return T('clo', (v.a[0], tuple(f)) + v.a[2:])
        if v.op == 'undef':
            pass
        if v.op == 'upd' and v.a[1] == var and v.a[2] == i:
            v = v.a[0]
        return app('upd', v, var, i, x)

    def get(self, st, cell, path):
        v = st.cells.get(cell)
        if v is None:
            v = app('undef', cell[0] if isinstance(cell, tuple) else cell, cell[1] if isinstance(cell, tuple) else 0)
        return self.walk(st, v, path)

    def walk(self, st, v, path):
        for p in path:
            if p[0] == 'f':
                v = self.field(v, p[1], p[2])
            elif p[0] == 'ix':
                v = self.idx(st, v, p[1])
            elif p[0] == 'sl':
                v = mk_slice(v, p[1], p[2])
        return v

    def idx(self, st, v, i):
        i = st.norm(i)
        r = index(v, i)
        return st.norm(r)

    def put(self, st, cell, path, x):
        if not path:
            st.cells[cell] = x
            return
        v = st.cells.get(cell)
        if v is None:
            v = app('undef', 0, 0)
        st.cells[cell] = self.upd(st, v, path, x)

    def upd(self, st, v, path, x):
        if not path:
            return x
        p = path[0]
        if p[0] == 'f':
            return self.with_field(v, p[1], self.upd(st, self.field(v, p[1], p[2]), path[1:], x), p[2])
        if p[0] == 'ix':
            i = st.norm(p[1])
            return self.set_index(st, v, i, self.upd(st, self.idx(st, v, i), path[1:], x))
        if p[0] == 'sl':
            lo, hi = p[1], p[2]
            new = self.upd(st, mk_slice(v, lo, hi), path[1:], x)
            parts = [mk_slice(v, I(0), lo), new]
            if hi is not None:
                parts.append(mk_slice(v, hi, None))
            return concat(*parts)
        raise Unsupported('upd ' + repr(p))

    def set_index(self, st, v, i, x):
        e = elems(v)
        if e is not None and i.op == 'i' and 0 <= i.a[0] < len(e):
            e = list(e)
            e[i.a[0]] = x
            return eseq(e)
        return app('store', v, i, x)

    def locate(self, st, fr, pl):
        """-> (cell, path)"""
        cell, path = (fr.depth, pl[0]), ()
        var = None
        skip = False
        for p in pl[1]:
            k = p[0]
            if k == 'deref':
                v = self.get(st, cell, path)
                if v.op == 'ref':
                    cell, path = v.a[0], v.a[1]
                var = None
                skip = False
                continue
            if k == 'downcast':
                var = p[1]
                continue
            if k == 'field':
                if p[2].startswith(('std::ptr::Unique<', 'std::ptr::NonNull<', 'core::ptr::')):
                    skip = True
                    continue
                if skip and p[2].startswith('*'):
                    skip = False
                    continue
                path = path + (('f', p[1], var),)
                var = None
            elif k == 'index':
                i = st.norm(self.get(st, (fr.depth, p[1]), ()))
                path = path + (('ix', i),)
            elif k == 'cindex':
                if p[2]:
                    n = length(self.get(st, cell, path))
                    path = path + (('ix', st.norm(sub(n, I(p[1])))),)
                else:
                    path = path + (('ix', I(p[1])),)
            elif k == 'subslice':
                if p[3]:
                    hi = None
                    if p[2]:
                        hi = st.norm(sub(length(self.get(st, cell, path)), I(p[2])))
                    path = path + (('sl', I(p[1]), hi),)
                else:
                    path = path + (('sl', I(p[1]), I(p[2])),)
        return cell, path

    def read(self, st, fr, pl):
        c, p = self.locate(st, fr, pl)
        v = self.get(st, c, p)
        if v.op != 'ref' and len(pl[1]) > 1 and pl[1][-1][0] == 'field' and pl[1][-1][2].startswith('*') \
                and pl[1][-2][0] == 'field' and pl[1][-2][2].startswith(('std::ptr::NonNull<', 'core::ptr::')):
            return T('ref', (c, p))     # the raw pointer inside a Box: boxes are their content
        if v.op in ('i', 'adt', 'seq', 'ref', 'tup', 'clo'):
            return v
        return st.norm(v)

    def write(self, st, fr, pl, v):
        if not pl[1]:
            st.cells[(fr.depth, pl[0])] = v
            return
        c, p = self.locate(st, fr, pl)
        self.put(st, c, p, v)

    def deref(self, st, v):
        """content behind a (possibly mutable) reference"""
        n = 0
        while v.op == 'ref' and n < 8:
            v = self.get(st, v.a[0], v.a[1])
            n += 1
        return v

    def content(self, st, v):
        """value with every reference inside replaced by its content (for opaque calls)"""
        v = self.deref(st, v)
        if v.op in ('adt', 'tup', 'clo', 'seq'):
            m = {}
            for x in subterms(v):
                if x.op == 'ref':
                    c = self.deref(st, x)
                    m[x] = c
            if m:
                v = self.subst_refs(v, m)
        return v

    def subst_refs(self, v, m):
        if v in m:
            return m[v]
        if v.op == 'adt':
            return T('adt', (v.a[0], v.a[1], tuple(self.subst_refs(x, m) for x in v.a[2])))
        if v.op == 'tup':
            return T('tup', tuple(self.subst_refs(x, m) for x in v.a))
        if v.op == 'clo':
            return T('clo', (v.a[0], tuple(self.subst_refs(x, m) for x in v.a[1])) + v.a[2:])
        if v.op == 'seq':
            return seq(*[(k, self.subst_refs(x, m) if k != 'b' else x) for k, x in v.a])
        return v

    # ------------------------------------------------------------ constants
    def operand(self, st, fr, o, cs=None, span=None):
        if o[0] in ('copy', 'move'):
            return self.read(st, fr, o[1])
        return self.const(st, fr, o[1], cs, span)

    def const(self, st, fr, t, cs, span):
        t0 = t
        t = t.strip()
        m = re.match(r'(-?\d+)_([iu](?:8|16|32|64|128|size))$', t)
        if m:
            return I(int(m.group(1)), m.group(2))
        if t == 'true':
            return TRUE
        if t == 'false':
            return FALSE
        if t == '()':
            return UNIT
        m = re.match(r'([iu](?:8|16|32|64|128|size))::(MAX|MIN)$', t)
        if m:
            w = MASK[m.group(1)]
            if signed(m.group(1)):
                v = (1 << (w - 1)) - 1 if m.group(2) == 'MAX' else -(1 << (w - 1))
            else:
                v = (1 << w) - 1 if m.group(2) == 'MAX' else 0
            return I(v, m.group(1))
        if t.startswith('"'):
            return bseq(rust_str(t).encode('utf-8', 'surrogatepass'))
        if t.startswith('b"'):
            return bseq(rust_bytes(t))
        if t.startswith("'"):
            return I(ord(rust_str('"' + t[1:-1] + '"')), 'char')
        if t == '_':
            return self.uneval(st, fr, cs, span)
        if t.startswith('{alloc') or t.startswith('{transmute'):
            return self.alloc_const(fr, t)
        if t.startswith('<static('):
            m = re.search(r'\]::(.*?)\)\)>$', t)
            v = self.static_value(fr, m.group(1).split('::')[-2:]) if m else None
            return v if v is not None else sym('static ' + t)
        if re.match(r'\w+$', t) and t in fr.env:
            return self.gen_const(fr.env[t], t)
        if t.startswith('{closure@') or t.startswith('{fn') or t.startswith('ZeroSized'):
            return self.closure_const(fr, t)
        if re.match(r'[A-Z][A-Z0-9_]*$', t):
            if any(b.kind == 'fn' for b in self.P.bodies.get((fr.crate, t), ())):
                return T('fn', (t, env_key({})))        # the constructor of a tuple struct
            return sym('const ' + t)
        if re.match(r'(-?[\d.]+(e-?\d+)?_?f(32|64))', t):
            return app('float', t)
        return self.fn_const(fr, t)

    def gen_const(self, ty, name):
        m = re.match(r'-?\d+', ty.n)
        if m:
            suffix = ty.n[m.end():].lstrip('_')
            return I(int(m.group(0)), suffix or ('u8' if name in ('FILL', 'BYTE') else 'usize'))
        if ty.n in ('true', 'false'):
            return B(ty.n == 'true')
        return sym('const ' + ty.n)

    def closure_const(self, fr, t):
        m = re.match(r'\{closure@(.*?)\}$', t, re.S)
        return T('clo', (m.group(1) if m else t, (), env_key(fr.env)))

    def fn_const(self, fr, t):
        t = self.inst(fr, t)
        # unit struct / tuple-struct constants
        segs = strip_gen(t)
        v = self.variant_of(segs)
        if v and v[1] is not None and self.P.variants(v[0]):
            n = v[1]
            return T('fn', (t, 'ctor'))
        return T('fn', (t, env_key({})))

    def alloc_const(self, fr, t):
        m = re.match(r'\{(alloc\d+): (.*)\}$', t, re.S)
        if m:
            v = self.fn_table(fr, m.group(1)) if re.match(r'&\[.*\bfn\(.*; \d+\]$', m.group(2), re.S) else None
            return v if v is not None else sym('static %s:%s' % (fr.crate, m.group(1)))
        return sym('const ' + t[:80])

    def fn_table(self, fr, alloc):
        """a static array of functions"""
        m = re.match(r'static: (.*?)(?:, size.*)?$', self.P.allocs.get(fr.crate, {}).get(alloc, ('',))[0])
        if not m:
            return None
        return self.static_value(fr, strip_gen(m.group(1))[-2:])

    PLAIN = re.compile(r'(\[(&?\[?u8|.*\bfn\(.*); ?\d+\]|&?\[u8\]|[iu]\d+|&str)$', re.S)

    def static_value(self, fr, tail):
        """the value of a static of plain data that nothing can change"""
        bs = [b for (c, n), v in self.P.bodies.items() for b in v if c == fr.crate and b.kind == 'static' and strip_gen(n)[-2:] == tail]
        if len(bs) != 1 or not self.PLAIN.match(bs[0].ret or ''):
            return None
        outs = self.run_body(bs[0], {}, [], State(), fr)
        return self.content(outs[0].st, outs[0].v) if len(outs) == 1 and outs[0].kind == 'ret' else None

    def uneval(self, st, fr, cs, span):
        """`const _`: a promoted constant or a named constant"""
        if cs:
            c = cs.pop(0)
            r = self.const_comment(fr, c)
            if r is not None:
                return r
            return sym('const? ' + c[:120])
        # primitive constant: find its name in the source span
        r = self.span_const(fr, span)
        if r is not None:
            return r
        return sym('const@%s' % (span,))

    def const_comment(self, fr, c):
        m = re.search(r'val: (Unevaluated|Value)\(', c)
        if not m:
            return None
        inner = c[m.end():find_close(c, m.end() - 1)]
        if m.group(1) == 'Value':
            if inner.startswith('"') or inner.startswith('b"') or re.match(r'-?\d', inner):
                return self.const(None, fr, inner, None, None)
            return None
        parts = split_top(inner)
        path = parts[0]
        pm = re.search(r'promoted\[(\d+)\]', parts[-1])
        args = parts[1].strip()[1:-1] if len(parts) > 1 else ''
        name = path + ('::promoted[%s]' % pm.group(1) if pm else '')
        return self.eval_const(fr, path, int(pm.group(1)) if pm else None, args)

    def eval_const(self, fr, path, prom, args):
        P = self.P
        m = re.match(r'(?:core|std)::(?:num::)?(?:<impl )?([iu](?:8|16|32|64|128|size))>?::(MAX|MIN|BITS)$', path)
        if m and prom is None:
            return int_const(m.group(1), m.group(2))
        env = dict(fr.env) if prom is not None else {}
        key = (fr.crate, path, prom, args, env_key(env) if prom is not None else None)
        if key in self.cvals:
            return self.cvals[key]
        self.cvals[key] = None
        body = None
        if prom is not None:
            body = self.find_promoted(fr, path, prom)
        else:
            r = P.resolve(fr.crate, self.inst(fr, path))
            if r is None:
                cands = P.find_const(fr.crate, path)
                if len(cands) == 1:
                    r = (cands[0], {})
                elif len(cands) > 1:
                    a = [x for x in cands if x.name.endswith(path)]
                    if len(a) >= 1:
                        r = (a[-1], {})
            if r:
                body, e2 = r
                env.update(e2)
        v = None
        if body is not None:
            try:
                outs = self.run_body(body, env, [], State(), fr)
                rets = [o for o in outs if o.kind == 'ret']
                if len(rets) == 1:
                    v = self.content(rets[0].st, rets[0].v)
            except Unsupported:
                v = None
        if v is None:
            v = sym('const %s%s' % (path, '' if prom is None else '#%d' % prom))
        self.cvals[key] = v
        return v

    def find_promoted(self, fr, path, n):
        b = fr.body
        P = self.P
        suffix = '::promoted[%d]' % n
        for nm in (b.name, path):
            c = P.bodies.get((b.crate, nm + suffix))
            if c:
                for x in c:
                    if x.promoted_of is b or getattr(x.promoted_of, 'name', x.promoted_of) == b.name:
                        pass
                return self.pick_promoted(c, b)
        r = P.resolve(fr.crate, self.inst(fr, path) + suffix)
        if r:
            return r[0]
        cands = [bb for (cr, nm), bs in P.bodies.items() if cr == fr.crate and nm.endswith(path + suffix) for bb in bs]
        return cands[-1] if cands else None

    def pick_promoted(self, c, b):
        if len(c) == 1:
            return c[0]
        # macro generated siblings share a name: the promoted follows its owner in file order
        same = self.P.bodies.get((b.crate, b.name), [])
        if len(same) == len(c) and b in same:
            return c[same.index(b)]
        return c[-1]

    def span_const(self, fr, span):
        key = ('span', fr.crate, span, env_key(fr.env))
        if key in self.cvals:
            return self.cvals[key]
        v = None
        m = re.match(r'(.*?):(\d+):(\d+): (\d+):(\d+)', span or '')
        if m:
            txt = self.P.src.span(m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), int(m.group(5)))
            if txt:
                txt = re.sub(r'"(\\.|[^"\\])*"', '""', txt)
                em = re.match(r'(?:\w+::)*([A-Z]\w*)::([A-Z]\w*)\s+as\s+(\w+)$', txt.strip())
                if em:
                    for nm, d in self.P.variants(em.group(1)) or []:
                        if nm == em.group(2):
                            v = I(d, em.group(3))
                ids = re.findall(r'(?<![\w:$])((?:\w+::)*[A-Z][A-Z0-9_]*)(?![\w(])', txt) if v is None else []
                for i in ids:
                    r = self.named_const(fr, i)
                    if r is not None:
                        v = r if v is None else v
        self.cvals[key] = v
        return v

    def named_const(self, fr, i):
        key = ('named', fr.crate, i)
        if key in self.cvals:
            return self.cvals[key]
        self.cvals[key] = None
        v = self.cvals[key] = self.named_const1(fr, i)
        return v

    def named_const1(self, fr, i):
        m = re.match(r'(?:core::num::|std::)?(?:<impl )?([iu](?:8|16|32|64|128|size))>?::(MAX|MIN|BITS)$', i)
        if m:
            return int_const(m.group(1), m.group(2))
        c = self.P.find_const(fr.crate, i)
        if not c:
            return None
        names = {x.name for x in c}
        b = c[-1]
        if len(names) > 1:
            return None
        outs = self.run_body(b, {}, [], State(), fr)
        rets = [o for o in outs if o.kind == 'ret']
        if len(rets) == 1:
            return self.content(rets[0].st, rets[0].v)
        return None

    def macro_consts(self, fr, t, args):
        """`$ty::MAX` written in a macro: the integer type is the one of the parameter it is passed to"""
        m = re.match(r'(.*?):(\d+):(\d+): (\d+):(\d+)', t.span or '')
        txt = m and self.P.src.span(m.group(1), *map(int, m.groups()[1:]))
        which = re.findall(r'\$\w+::(MAX|MIN|BITS)\b', txt or '')
        if len(which) != sum(1 for o in args if o == ('const', '_')):
            return None
        sig = [re.search(r'ty: (?:for<[^>]*> )?(?:unsafe )?fn(\(.*)', c) for c in t.consts]
        sig = [g.group(1) for g in sig if g]
        if not sig:
            return None
        ps = split_top(sig[0][1:find_close(sig[0], 0)])
        if len(ps) != len(args):
            return None
        out = []
        for o, p in zip(args, ps):
            if o == ('const', '_'):
                if p.strip() not in MASK:
                    return None
                out.append(int_const(p.strip(), which[len(out)]))
        return out

    def consts_for_span(self, fr, span, n):
        """n primitive unevaluated constants named, in order, inside a call's span"""
        m = re.match(r'(.*?):(\d+):(\d+): (\d+):(\d+)', span or '')
        if not m:
            return None
        txt = self.P.src.span(m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), int(m.group(5)))
        if not txt:
            return None
        txt = re.sub(r'"(\\.|[^"\\])*"', '""', txt)
        ids = re.findall(r'(?<![\w:$])((?:\w+::)*[A-Z][A-Z0-9_]*)(?![\w(])', txt)
        vs = [x if x is not None or not i.startswith('libc::') else sym(i) for i in ids for x in [self.named_const(fr, i)]]
        vs = [x for x in vs if x is not None]
        return vs if len(vs) == n else None

    # ---------------------------------------------------------------- types
    def inst(self, fr, s):
        env = fr.env
        if not env:
            return s
        for k, v in env.items():
            if isinstance(v, Ty) and re.search(r'(?<![\w:#])%s(?![\w])' % re.escape(k), s):
                s = re.sub(r'(?<![\w:#])%s(?![\w])' % re.escape(k), lambda m: repr(v), s)
        return s

    def variant_of(self, segs):
        """(type name, variant or None) for an aggregate path"""
        if len(segs) >= 2:
            vs = self.P.variants(segs[-2])
            if vs and segs[-1] in [x[0] for x in vs]:
                return segs[-2], segs[-1]
        return segs[-1], None

    def local_ty(self, fr, local):
        t = fr.body.locals.get(local)
        if t is None:
            for l, ty in fr.body.args:
                if l == local:
                    t = ty
            if local == 0:
                t = fr.body.ret
        return t

    def op_ty(self, fr, o):
        """type text of an operand when cheap to know"""
        if o[0] == 'const':
            m = re.match(r'-?\d+_(\w+)$', o[1])
            if m:
                return m.group(1)
            m = re.match(r'([iu]\w+)::(MAX|MIN)$', o[1])
            return m.group(1) if m else ('char' if o[1].startswith("'") else 'bool' if o[1] in ('true', 'false') else None)
        pl = o[1]
        if not pl[1]:
            t = self.local_ty(fr, pl[0])
            return self.inst(fr, t) if t else None
        last = pl[1][-1]
        if last[0] == 'field':
            return self.inst(fr, last[2])
        t = self.local_ty(fr, pl[0])
        if t is None:
            return None
        ty = pty(self.inst(fr, t))
        for p in pl[1]:
            if p[0] == 'field':
                ty = pty(self.inst(fr, p[2]))
            elif p[0] == 'deref':
                if ty.n in ('&', '&mut', '*', 'Box') and ty.a:
                    ty = ty.a[0]
                else:
                    return None
            elif p[0] in ('index', 'cindex'):
                if ty.n in ('[]', '[;]'):
                    ty = ty.a[0]
                else:
                    return None
        return repr(ty)

    # -------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, rv, stmt, dest_ty=None):
        k = rv[0]
        cs = list(stmt.consts)
        span = stmt.span

        def fnish(o):
            # comments are also emitted for fn items: consume in operand order
            if o[0] == 'const' and o[1] != '_' and cs and not re.match(r'(-?\d|true|false|\(\)|")', o[1]):
                cs.pop(0)

        def op(o):
            if o[0] == 'const' and o[1] == '_' and not cs:
                n = str(rv).count("('const', '_')")
                if n > 1:
                    vs = self.consts_for_span(fr, span, n)
                    if vs:
                        i = op.k
                        op.k += 1
                        return vs[i]
            if o[0] == 'const' and (o[1].startswith('"') or o[1].startswith('b"')) and cs:
                cs.pop(0)
                return self.const(st, fr, o[1], cs, span)
            fnish(o)
            return self.operand(st, fr, o, cs, span)
        op.k = 0
        if k == 'use':
            return op(rv[1])
        if k in ('ref', 'addr'):
            mut = rv[1] == 'mut'
            c, p = self.locate(st, fr, rv[2])
            if mut:
                v = self.get(st, c, p)
                if v.op == 'ref':
                    pass
                return T('ref', (c, p))
            v = self.get(st, c, p)
            return v if v.op in ('i', 'adt', 'seq', 'ref', 'tup', 'clo') else st.norm(v)
        if k == 'bin':
            a, b = op(rv[2]), op(rv[3])
            ty = self.op_ty(fr, rv[2])
            if not ty and a.op == 'i':
                ty = a.a[1]
            if not ty and rv[1] not in ('Shl', 'Shr'):
                ty = self.op_ty(fr, rv[3])
            return self.binop(st, rv[1], a, b, ty)
        if k == 'un':
            a = op(rv[2])
            ty = self.op_ty(fr, rv[2])
            if rv[1] == 'Not':
                if ty == 'bool' or a.op in ('Eq', 'Lt', 'not'):
                    return NOT(a)
                if a.op == 'i':
                    return I(wrap(~a.a[0], a.a[1]), a.a[1])
                return app('bnot', a)
            if a.op == 'i':
                return I(wrap(-a.a[0], a.a[1]), a.a[1])
            return scale(a, -1)
        if k == 'len':
            return st.norm(length(self.read(st, fr, rv[1])))
        if k == 'discr':
            return self.discr(st, self.read(st, fr, rv[1]))
        if k == 'cast':
            return self.cast(st, fr, op(rv[1]), rv, self.op_ty(fr, rv[1]))
        if k == 'repeat':
            n = self.array_len(st, fr, rv[2], dest_ty)
            return rep(op(rv[1]), n)
        if k == 'array':
            return eseq([op(x) for x in rv[1]])
        if k == 'tuple':
            return tup(*[op(x) for x in rv[1]])
        if k == 'closure':
            m = re.match(r'\{(?:closure|coroutine|async \w+)@(.*)\}$', rv[1], re.S)
            return T('clo', (m.group(1) if m else rv[1], tuple(op(x) for x in rv[2]), env_key(fr.env)))
        if k == 'adt':
            return self.aggregate(st, fr, rv, op)
        if k == 'nullary':
            if rv[1] == 'SizeOf':
                return self.size_of(fr, rv[2])
            n = align_of(pty(self.inst(fr, rv[2])))
            return I(n) if n else app(rv[1], rv[2])
        if k == 'box':
            return app('undef', 0, 0)
        raise Unsupported('rvalue ' + str(k))

    def size_of(self, fr, ty):
        t = pty(self.inst(fr, ty))
        n = self.sizeof(t)
        return I(n) if n is not None else app('SizeOf', repr(t))

    def sizeof(self, t):
        if t.n in MASK:
            return max(1, MASK[t.n] // 8)
        if t.n == '[;]':
            e = self.sizeof(t.a[0])
            m = re.match(r'\d+', t.a[1].n)
            if e is not None and m:
                return e * int(m.group(0))
        if t.n == 'GenericArray' and len(t.a) == 2:
            e, n = self.sizeof(t.a[0]), typenum(t.a[1])
            if e is not None and n is not None:
                return e * n
        return None

    def array_len(self, st, fr, n, dest_ty):
        n = n.strip()
        m = re.match(r'(?:const )?(\d+)(_usize)?$', n)
        if m:
            return I(int(m.group(1)))
        n = n.replace('const ', '').strip()
        if n in fr.env:
            return self.gen_const(fr.env[n], n)
        if dest_ty:
            t = pty(self.inst(fr, dest_ty))
            if t.n == '[;]':
                m = re.match(r'\d+', t.a[1].n)
                if m:
                    return I(int(m.group(0)))
        return sym('const ' + n)

    def aggregate(self, st, fr, rv, op):
        path = rv[1]
        segs = strip_gen(self.inst(fr, path))
        ty, var = self.variant_of(segs)
        fs = tuple(op(x) for x in rv[3])
        if ty in ('ManuallyDrop', 'Pin') and len(fs) == 1:
            return fs[0]
        return T('adt', (ty, var, fs))

    def discr(self, st, v):
        if v.op == 'adt' and v.a[1] is not None:
            for nm, d in self.P.variants(v.a[0]) or []:
                if nm == v.a[1]:
                    return I(d, 'isize')
        r = app('discr', v)
        return st.norm(r)

    def cast(self, st, fr, v, rv, sty):
        kind, ty = rv[3], self.inst(fr, rv[2])
        if kind.startswith('IntToInt') or kind.startswith('IntToFloat'):
            if ty in MASK and v.op in ('len', 'lin', 'phi', 'fld') and sty in MASK:
                lo, hi = st.diff_bounds(v) if v.op == 'lin' else st.bounds(v)
                if lo is not None and hi is not None and in_range(lo, ty) and in_range(hi, ty):
                    return T('lin', (v.a[0], v.a[1], ty)) if v.op == 'lin' else v      # keeps its value
            return self.int_cast(v, ty, sty)
        if kind.startswith('PtrToPtr') or kind.startswith('Pointer') or kind.startswith('Transmute') or kind.startswith('PointerCoercion') \
                or kind.startswith('DynStar') or kind.startswith('FnPtr'):
            if kind.startswith('Transmute'):
                t = pty(ty)
                if t.n in MASK and v.op not in ('i',):
                    return app('transmute', v, ty)
                return regroup(v, pty(sty) if sty else None, t)
            return v
        return app('castx', v, ty)

    def int_cast(self, v, ty, sty):
        if ty not in MASK:
            return app('cast', v, ty)
        if v.op == 'i':
            return I(wrap(v.a[0], ty), ty)
        if v.op in ('Eq', 'Lt', 'not') or sty == 'bool':
            t = app('cast', v, ty)
            COUNTERS.setdefault(t, (0, 1))
            return t
        if sty in MASK:
            ws, wd = MASK[sty], MASK[ty]
            if (signed(sty) == signed(ty) and wd >= ws) or (not signed(sty) and wd > ws):
                # widening keeps the mathematical value
                if v.op == 'lin':
                    return T('lin', (v.a[0], v.a[1], ty))
                if sty == 'u8':
                    U8.add(v) if not bases(v) - {v} else None
                return v
        return app('cast', v, ty)

    def binop(self, st, o, a, b, ty):
        ty = ty or (a.a[1] if a.op == 'i' else b.a[1] if b.op == 'i' else 'usize')
        o = o.replace('Unchecked', '')
        chk = o.startswith('Checked')
        if chk:
            o = o[7:]
        if ty == 'u8' and o in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            for x in (a, b):
                if x.op not in ('i',) and bases(x) == {x}:
                    U8.add(x)
        if o == 'Eq':
            return st.norm(self.veq(st, a, b))
        if o == 'Ne':
            return st.norm(NOT(self.veq(st, a, b)))
        if o == 'Lt':
            return self.cmp_norm(st, lt(a, b))
        if o == 'Gt':
            return self.cmp_norm(st, lt(b, a))
        if o == 'Le':
            return self.cmp_norm(st, NOT(lt(b, a)))
        if o == 'Ge':
            return self.cmp_norm(st, NOT(lt(a, b)))
        if o in ('Add', 'Sub', 'Mul'):
            if o == 'Add':
                r = add(a, b)
            elif o == 'Sub':
                r = sub(a, b)
            elif a.op == 'i':
                r = scale(b, a.a[0])
            elif b.op == 'i':
                r = scale(a, b.a[0])
            else:
                r = app('Mul', a, b, ty)
            if r.op == 'i':
                r = I(r.a[0], ty)
            elif r.op == 'lin' and r.a[2] != ty:
                r = T('lin', (r.a[0], r.a[1], ty))
            r = st.norm(r)
            if chk:
                if r.op == 'i':
                    return tup(I(wrap(r.a[0], ty), ty), B(not in_range(r.a[0], ty)))
                o_t = app('ovf', r, ty)
                return tup(r, st.norm(o_t))
            if r.op == 'i':
                return I(wrap(r.a[0], ty), ty)
            return r
        if o in ('Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
            if o in ('Shl',):
                t = app(o, a, b, ty)
            else:
                if o == 'BitXor':
                    if a is b:
                        return I(0, ty)
                    for x, y in ((a, b), (b, a)):
                        if x.op == 'BitXor' and y in x.a:
                            return x.a[1] if x.a[0] is y else x.a[0]
                if o in ('BitAnd', 'BitOr', 'BitXor') and a.id > b.id:
                    a, b = b, a
                t = app(o, a, b)
            if ty == 'bool' and o in ('BitAnd', 'BitOr', 'BitXor'):
                da, db = st.decide(a), st.decide(b)
                if o == 'BitAnd':
                    if da is False or db is False:
                        return FALSE
                    if da is True:
                        return b
                    if db is True:
                        return a
                if o == 'BitOr':
                    if da or db:
                        return TRUE
                    if da is False:
                        return b
                    if db is False:
                        return a
            if a.op == 'i' and b.op == 'i' and not (o in ('Div', 'Rem') and b.a[0] == 0):
                v = ev(t, {})
                t = I(wrap(v, ty), ty)
            if chk:
                return tup(t, app('ovf', b, 'shift'))
            return st.norm(t) if t.op != 'i' else t
        if o == 'Offset':
            return app('offset', a, b)
        raise Unsupported('binop ' + o)

    def cmp_norm(self, st, t):
        d = st.decide(t)
        if d is not None:
            return B(d)
        return st.norm(t)

    def veq(self, st, a, b):
        return eq(a, b)

    # ------------------------------------------------------------ execution
    def run_body(self, body, env, args, st, up, site=''):
        """-> [Out]; frame locals are removed from the returned states"""
        depth = 0 if up is None else up.depth + 1
        fr = Frame(body, env, depth, site, up)
        self.visited.add((body.crate, body.name))
        for (l, ty), v in zip(body.args, args):
            st.cells[(depth, l)] = v
        cfg = self.cfg(body)
        outs = []
        self.run_region(fr, cfg, None, 0, [st], outs, {})
        for o in outs:
            o.st.cells = {c: v for c, v in o.st.cells.items() if not (isinstance(c, tuple) and isinstance(c[0], int) and c[0] >= depth)}
        return outs

    def clean(self, st, fr, cfg, b):
        live = cfg.live.get(b)
        if live is None:
            return
        d = fr.depth
        dead = [c for c in st.cells if c[0] == d and c[1] not in live and isinstance(c[1], int)]
        for c in dead:
            del st.cells[c]

    def run_region(self, fr, cfg, loop, entry, states, outs, exits):
        """run blocks of `loop` (or the whole body) from entry; back edges to the loop head
        are collected under exits['back']"""
        members = cfg.loops[loop] if loop is not None else None
        pending = {entry: list(states)}
        first = True
        while pending:
            b = min(pending, key=lambda x: cfg.rpo[x])
            sts = pending.pop(b)
            for s in sts:
                self.clean(s, fr, cfg, b)
            sts = self.dedupe(sts)
            if len(sts) > self.part:
                sts = self.merge_parts(sts, ('m', fr_key(fr), b))
            if b in cfg.loops and not (loop == b and first):
                res = self.run_loop(fr, cfg, b, sts, outs)
            else:
                first = False
                res = []
                for s in sts:
                    res += self.exec_block(fr, b, s, outs)
            for (t, s) in res:
                if s.dead:
                    continue
                if loop is not None and t == loop:
                    exits.setdefault('back', []).append(s)
                elif members is not None and t not in members:
                    exits.setdefault(t, []).append(s)
                else:
                    pending.setdefault(t, []).append(s)

    def dedupe(self, sts):
        if len(sts) < 2:
            return sts
        out, seen = [], {}
        for s in sts:
            k = (frozenset(s.cells.items()), frozenset(s.ghost.items()), s.log)
            o = seen.get(k)
            if o is None:
                seen[k] = s
                out.append(s)
            elif not self.table:
                merge_facts(o, s)
            else:               # merge only when the union is exact
                for o in seen.setdefault(('x', k), [o]):
                    if exact_union(o, s):
                        break
                else:
                    seen[('x', k)].append(s)
                    out.append(s)
        return out

    def merge_parts(self, sts, tag, limit=None):
        limit = limit or self.part // 2
        for lvl in (2, 1, 0):
            groups = {}
            for s in sts:
                groups.setdefault((frozenset(s.ghost.items()), tuple(e for e in s.log if e[0] not in ('loop', 'join')) if lvl == 0 else s.log,
                                   state_shape(s, lvl)), []).append(s)
            if len(groups) <= limit:
                break
        out = []
        for i, g in enumerate(groups.values()):
            out.append(join(g, (tag, i)) if len(g) > 1 else g[0])
        return out

    def run_loop(self, fr, cfg, h, sts, outs):
        res = []
        if len(sts) > max(6, self.unroll_width - 2):
            sts = self.merge_parts(sts, ('lm', fr_key(fr), h), max(6, self.unroll_width - 2))
        for s in sts:
            res += self.run_loop1(fr, cfg, h, s, outs)
        return res

    def run_loop1(self, fr, cfg, h, s, outs):
        key = ('noun', id(fr.body), h)
        saved = fr.unr
        mark = (len(outs), len(self.calls), len(self.loops))
        nounroll = self.consts.get((key, fr_key(fr)))
        if not nounroll:
            cur, res, n, ok_ = [s.copy()], [], 0, False
            while n < UNROLL:
                fr.unr = saved + (n,)
                heads = [c.copy() for c in cur]
                exits = {}
                self.run_region(fr, cfg, h, h, cur, outs, exits)
                back = self.dedupe(exits.pop('back', []))
                live_exits = 0
                for t, ss in exits.items():
                    for x in ss:
                        res.append((t, x))
                        live_exits += 1
                if not back:
                    ok_ = True
                    break
                if len(back) > self.unroll_width:
                    back = self.merge_parts(back, ('un', fr_key(fr), h, n), self.unroll_width)
                    if len(back) > self.unroll_width:
                        break
                if not self.table and live_exits and not all(self.progress(heads, b) for b in back):
                    break
                if not live_exits and n > 3 and not any(self.progress(heads, b, True) for b in back):
                    break
                cur = back
                n += 1
            fr.unr = saved
            if ok_:
                return res
            self.consts[(key, fr_key(fr))] = True
            del outs[mark[0]:]
            del self.calls[mark[1]:]
            del self.loops[mark[2]:]
        # joined mode
        tag = ('L', fr_key(fr), h)
        H = s.copy()
        H.log = H.log + (('loop', fr.body.name),)
        H.entry = s
        for rnd in range(40):
            del outs[mark[0]:]
            del self.calls[mark[1]:]
            del self.loops[mark[2]:]
            exits = {}
            self.run_region(fr, cfg, h, h, [H.copy()], outs, exits)
            back = exits.pop('back', [])
            if not back:
                break
            for b in back:
                b.log = H.log
            J = join([H] + back, tag, loop=True)
            if same(J, H):
                break
            J.entry = s
            H = J
        else:
            raise Unsupported('loop did not stabilise in ' + fr.body.name)
        self.loops.append((fr, h, H, back))
        forall(s, H, back, [x for ss in exits.values() for x in ss])
        return [(t, x) for t, ss in exits.items() for x in ss]

    def progress(self, heads, b, anyc=False):
        """some live cell is a concrete iterator that strictly shrank, or a concrete counter moved"""
        for hd in heads:
            for c, v in b.cells.items():
                o = hd.cells.get(c)
                if o is not None and o is not v and shrank(o, v, anyc):
                    return True
        return False

    # ---------------------------------------------------------------- blocks
    def exec_block(self, fr, b, st, outs):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step budget exhausted in ' + fr.body.name)
        stmts, t, _ = fr.body.blocks[b]
        for s in stmts:
            if s.kind == 'assign':
                dty = None
                if not s.place[1]:
                    dty = self.local_ty(fr, s.place[0])
                v = self.rvalue(st, fr, s.rv, s, dty)
                self.write(st, fr, s.place, v)
            elif s.kind == 'setdiscr':
                pass
            elif s.kind in ('live', 'dead', 'nop'):
                pass
        return self.exec_term(fr, b, t, st, outs)

    def fork_bool(self, st, t):
        """-> [(bool, state)]"""
        d = st.decide(t)
        if d is not None:
            return [(d, st)]
        o = st.copy()
        r = []
        if st.assume(t, TRUE) and not st.dead:
            r.append((True, st))
        if o.assume(t, FALSE) and not o.dead:
            r.append((False, o))
        return r

    def exec_term(self, fr, b, t, st, outs):
        k = t.kind
        if k == 'goto':
            return [(t.a, st)]
        if k == 'switch':
            return self.exec_switch(fr, t, st)
        if k == 'return':
            v = st.cells.get((fr.depth, 0), UNIT)
            outs.append(Out('ret', v, st))
            return []
        if k in ('unreachable', 'resume'):
            return []
        if k == 'drop':
            return self.exec_drop(fr, b, t, st, outs)
        if k == 'assert':
            return self.exec_assert(fr, b, t, st, outs)
        if k == 'call':
            return self.exec_call(fr, b, t, st, outs)
        raise Unsupported('terminator %s in %s' % (k, fr.body.name))

    def exec_switch(self, fr, t, st):
        op, targets, other = t.a
        v = st.norm(self.operand(st, fr, op, list(t.consts), t.span))
        ty = self.op_ty(fr, op)
        if ty == 'u8' and bases(v) == {v}:
            U8.add(v)
        if v.op == 'i':
            x = v.a[0]
            if v.a[1] == 'bool':
                x = 1 if x else 0
            for val, bb in targets:
                if val == x or (ty in MASK and wrap(val, ty) == x):
                    return [(bb, st)]
            return [(other, st)] if other is not None else []
        out = []
        isbool = ty == 'bool' or v.op in ('Eq', 'Lt', 'not', 'ovf')
        if isbool:
            tm = dict(targets)
            for val, s in self.fork_bool(st, v):
                out.append((tm.get(1 if val else 0, other), s))
            return [x for x in out if x[0] is not None]
        rest = st
        for val, bb in targets:
            s = rest.copy()
            w = wrap(val, ty) if ty in MASK else val
            if s.assume(v, I(w, ty if ty in MASK else 'isize')) and not s.dead:
                out.append((bb, s))
            if not rest.exclude(v, w) or rest.dead:
                return out
        if other is not None and fr.body.blocks[other][1].kind != 'unreachable':
            if v.op == 'discr' and self.covered(v, targets, rest):
                return out
            out.append((other, rest))
        return out

    def covered(self, v, targets, st):
        return False

    def exec_assert(self, fr, b, t, st, outs):
        cond, expected, msg = t.a[0], t.a[1], t.a[2]
        v = self.operand(st, fr, cond, list(t.consts), t.span)
        if not expected:
            v = NOT(v)
        d = st.decide(v)
        if d is None and str(msg).strip('"').startswith('misaligned pointer') and any(x.op == 'transmute' and x.a[0].op == 'ref' and not x.a[0].a[1] for x in subterms(v)):
            d = True        # a box or variable of the program itself
        tgt = t.a[-1]
        if d is True:
            return [(tgt, st)]
        p = st.copy()
        if d is False or (p.assume(v, FALSE) and not p.dead):
            self.panic(fr, p, 'assert: ' + str(msg).strip('"'), t.span, outs)
        if d is False:
            return []
        if st.assume(v, TRUE) and not st.dead:
            return [(tgt, st)]
        return []

    def panic(self, fr, st, msg, span, outs):
        outs.append(Out('panic', (msg, tuple(fr.where()), span), st))

    def exec_drop(self, fr, b, t, st, outs):
        pl, tgt = t.a[0], t.a[1]
        for hk in self.hooks:
            f = getattr(hk, 'on_drop', None)
            if f:
                f(self, fr, st, pl, self.local_ty(fr, pl[0]))
        return [(tgt, st)] if tgt is not None else []

    # ------------------------------------------------------------------ calls
    def exec_call(self, fr, b, t, st, outs):
        dest, callee, args, ret = t.a
        cs = list(t.consts)
        vals = []
        nun = sum(1 for o in args if o == ('const', '_'))
        prim = None
        if nun:
            ncom = len([c for c in cs if 'Unevaluated' in c])
            if ncom == 0:
                prim = self.macro_consts(fr, t, args) or self.consts_for_span(fr, t.span, nun)
            cs = [c for c in cs if 'Unevaluated' in c]
        for o in args:
            if o == ('const', '_') and prim is not None:
                vals.append(prim.pop(0))
            elif o == ('const', '_') and not cs:
                vals.append(self.uneval(st, fr, None, t.span))
            else:
                vals.append(self.operand(st, fr, o, cs, t.span))
        site = (fr_key(fr), b)
        if callee[0] == 'fn':
            rs = self.call_path(fr, st, callee[1], vals, site, t)
        else:
            f = self.operand(st, fr, callee if callee[0] in ('copy', 'move', 'const') else callee[1], None, None)
            rs = self.call_value(fr, st, f, vals, site)
        out = []
        for r in rs:
            if r.st.dead:
                continue
            if r.kind == 'ret':
                if ret is None:
                    continue
                self.write(r.st, fr, dest, r.v)
                out.append((ret, r.st))
            else:
                outs.append(r)
        return out

    def call_value(self, fr, st, f, args, site):
        f0 = f
        f = self.deref(st, f)
        if f.op == 'clo':
            return self.call_closure(fr, st, f0, f, args, site)
        if f.op == 'fn':
            if f.a[1] == 'ctor':
                segs = strip_gen(f.a[0])
                ty, var = self.variant_of(segs)
                return [Out('ret', T('adt', (ty, var, tuple(args))), st)]
            env = dict(f.a[1]) if isinstance(f.a[1], tuple) else {}
            return self.call_path(fr, st, f.a[0], args, site, None)
        if f.op == 'native':
            return f.a[0].fn(self, fr, st, args, site)
        return self.opaque(fr, st, 'call_value', [f] + list(args), site)

    def call_closure(self, fr, st, f0, f, args, site):
        b = self.closure_body(fr, f.a[0])
        if b is None:
            return self.opaque(fr, st, 'closure ' + f.a[0], [f] + list(args), site)
        env = dict(f.a[2]) if len(f.a) > 2 else {}
        selfty = b.args[0][1] if b.args else ''
        me = f0
        if selfty.startswith('&mut'):
            if f0.op != 'ref':
                d = fr.depth + 1
                cell = ('clo', fr.depth, f.a[0])
                st.cells[cell] = f
                me = T('ref', (cell, ()))
        else:
            me = f
        if fr.depth > self.max_depth or self.on_stack(fr, b) > self.recursion:
            return self.opaque(fr, st, 'closure ' + f.a[0], [f] + list(args), site)
        return self.run_body(b, env, [me] + list(args), st, fr, site)

    def on_stack(self, fr, b):
        n, f = 0, fr
        while f is not None:
            if f.body is b:
                n += 1
            f = f.up
        return n

    def closure_body(self, fr, cid):
        key = ('clobody', fr.crate, cid)
        if key in self.consts:
            return self.consts[key]
        P = self.P
        r = None
        cr = [fr.crate] + [c for c in P.crate_dirs if c != fr.crate]
        for c in cr:
            bs = P.bodies.get((c, cid))
            if bs:
                r = bs[-1]
                break
            x = P.resolve(c, cid)
            if x and x[0].name.endswith(cid[cid.rfind('::{'):]) :
                r = x[0]
                break
        if r is None:
            tail = re.search(r'((?:::\{[a-z_]+#\d+\})+)$', cid)
            if tail:
                x = None
                for nm in ('::'.join(s for s in split_top(cid, '::') if not s.startswith('<') or s.startswith('<impl')),
                           '::'.join(s for s in split_top(cid, '::') if not (s.startswith('<') and cid.index(s) > 0))):
                    bs = P.bodies.get((fr.crate, nm))
                    if bs:
                        x = (bs[-1], {})
                        break
                if not x:
                    x = P.resolve(fr.crate, re.sub(r'<[^<>]*(<[^<>]*>[^<>]*)*>(?=::\{)', '', cid))
                if x:
                    r = x[0]
        self.consts[key] = r
        return r

    def call_path(self, fr, st, callee, args, site, term=None):
        callee = self.inst(fr, callee)
        self.nsites += 1
        info = self.callee_info(fr.crate, callee)
        for hk in self.hooks:
            f = getattr(hk, 'on_call', None)
            if f:
                r = f(self, fr, st, info, args, site)
                if r is not None:
                    return r
        for f in self.splits:
            r = f(self, st, info, args)
            if r is not None:
                return [o for s, a in r for o in self.call_path(fr, s, callee, a, site, term)]
        x = self.extern.get(info.key)
        if x is not None:
            return x(self, fr, st, info, args, site)
        m = self.find_model(info, True)
        if m is not None:
            r = m(self, fr, st, info, args, site)
            if r is not NotImplemented:
                return r
        if info.key in ('Fn:call', 'FnMut:call_mut', 'FnOnce:call_once', 'F:call', 'F:call_mut', 'F:call_once'):
            a = args[1].a if args[1].op == 'tup' else [self.field(args[1], 0)]
            return self.call_value(fr, st, args[0], list(a), site)
        tgt = self.P.resolve(fr.crate, callee)
        if tgt is not None and info.trait and 'Self' in tgt[1] and self.generic_self(fr, info):
            tgt = None          # a default body says nothing about an unknown implementor
        if tgt is not None and info.trait and args and info.base_ty is not None and info.base_ty.n in ('proj', 'impl') and self.not_its_impl(st, tgt[0], args[0]):
            tgt = None          # the static type does not tell which implementation, the value does
        if tgt is None and info.trait and args:
            tgt = self.dyn_resolve(fr, st, info, args)
        if tgt is not None:
            b, env = tgt
            b = self.pick_variant(fr, b, args, callee)
            if fr.depth < self.max_depth and self.on_stack(fr, b) < self.recursion:
                return self.run_body(b, env, args, st, fr, site)
            return self.opaque(fr, st, b.name, args, site)
        m = self.find_model(info, False)
        if m is not None:
            r = m(self, fr, st, info, args, site)
            if r is not NotImplemented:
                return r
        b = self.shim(info)
        if b is not None and len(b.args) == len(args) and fr.depth < self.max_depth and self.on_stack(fr, b) < self.recursion:
            return self.run_body(b, {}, args, st, fr, site)
        self.unknown[info.key] = self.unknown.get(info.key, 0) + 1
        return self.opaque(fr, st, info.key, args, site, info)

    def shim(self, info):
        """the body sa/shim gives a std function that has no model"""
        for k in info.keys:
            k = k.replace('[]:', 'slice:') if k.startswith('[]:') else k
            bs = self.P.bodies.get(('shim', k.replace(':', '__')))
            if bs:
                return bs[0]
        return None

    def not_its_impl(self, st, b, v):
        im = self.P.impl_of(b.name)
        if im is None or im.self_ty is None:
            return False
        x = im.self_ty
        while x.n in ('&', '&mut') and x.a:
            x = x.a[0]
        if x.n in {n for n, _ in im.gen} or x.n.startswith('$'):
            return False
        v = self.deref(st, v)
        if v.op == 'adt':
            return v.a[0] != x.n and v.a[0] not in ('Range', 'RangeInclusive')
        return v.op == 'iter'

    def dyn_resolve(self, fr, st, info, args):
        """dispatch on the abstract value when the static type is generic or dyn"""
        v = self.deref(st, args[0])
        if v.op == 'adt':
            ty = v.a[0]
            r = self.P.resolve(fr.crate, '<%s as %s>::%s' % (ty, info.trait.n, info.method))
            return r
        return None

    def generic_self(self, fr, info):
        x = info.base_ty
        if x is None:
            return False
        if x.n.startswith('dyn'):
            return True
        if x.n == 'Self':
            return True
        f = fr
        while f is not None:
            y = f.env.get(x.n)
            if y is not None:
                return y.n == x.n
            f = f.up
        return False

    def pick_variant(self, fr, b, args, callee):
        return b

    def find_model(self, info, pre):
        tab = self.models[0 if pre else 1]
        for k in info.keys:
            m = tab.get(k)
            if m is not None:
                return m
        return None

    def callee_info(self, crate, callee):
        key = ('ci', crate, callee)
        r = self.consts.get(key)
        if r is None:
            r = self.consts[key] = CalleeInfo(self.P, callee)
        return r

    IMPURE = re.compile(r'::(load|store|swap|fetch_\w+|compare_exchange\w*|now|id|temp_dir|read|write|recv_from|recv|send_to|send|lock\w*|'
                        r'unlock|thread_rng|random|open|wait\w*|next_u\d+|fill|kind_|notify|spawn|listen|poll|get_or_init|current|var|metadata)$')

    def opaque(self, fr, st, key, args, site, info=None):
        """unknown callee: deterministic function of the contents of its arguments;
        whatever it can mutate becomes an unknown function of them"""
        st = st
        vals = [self.content(st, a) for a in args]
        if self.IMPURE.search('::' + key.split(':')[-1]):
            tag = ('@', site, fr.unr_key() if hasattr(fr, 'unr_key') else unr(fr))
            r = app('call:' + key, *(vals + [T('site', (repr(tag),))]))
        else:
            r = app('call:' + key, *vals)
        for i, a in enumerate(args):
            self.havoc(st, a, key, i, r)
        return [Out('ret', r, st)]

    def havoc(self, st, a, key, i, r):
        if a.op == 'ref':
            v = self.get(st, a.a[0], a.a[1])
            if v.op == 'ref':
                return self.havoc(st, v, key, i, r)
            inner = [x for x in subterms(v) if x.op == 'ref'] if v.op in ('adt', 'tup', 'clo', 'seq') else []
            for x in inner:
                self.havoc(st, x, key, i, r)
            self.put(st, a.a[0], a.a[1], app('mut:' + key, I(i), r))
        elif a.op in ('adt', 'tup', 'clo', 'seq'):
            for x in subterms(a):
                if x.op == 'ref':
                    self.havoc(st, x, key, i, r)

    # ---------------------------------------------------------------- helpers
    def ret(self, st, v):
        return [Out('ret', v, st)]

    def cases(self, st, v, tyname, variants, fields=None):
        """split a (possibly opaque) enum value -> [(state, variant, fields)]"""
        v = self.deref(st, v)
        if v.op == 'adt':
            return [(st, v.a[1], list(v.a[2]))]
        d = app('discr', v)
        out = []
        known = st.norm(d)
        vs = self.P.variants(tyname)
        num = dict(vs) if vs else {}
        for i, nm in enumerate(variants):
            n = num.get(nm, i)
            if known.op == 'i':
                if known.a[0] == n:
                    return [(st, nm, None)]
                continue
            s = st.copy()
            if s.assume(d, I(n, 'isize')) and not s.dead:
                out.append((s, nm, None))
        res = []
        for s, nm, _ in out:
            res.append((s, nm, None))
        return res

    def split(self, st, v, tyname, spec):
        """spec: {variant: nfields} -> [(state, variant, [field terms])]"""
        v = self.deref(st, v)
        r = []
        for s, nm, fs in self.cases(st, v, tyname, list(spec)):
            if fs is None:
                fs = [s.norm(app('fld', v, nm, i)) for i in range(spec.get(nm, 0))]
            r.append((s, nm, fs))
        return r

    def opt(self, st, v):
        """[(state, payload or None)]"""
        return [(s, fs[0] if nm == 'Some' else None) for s, nm, fs in self.split(st, v, 'Option', {'None': 0, 'Some': 1})]

    def res(self, st, v):
        """[(state, is_ok, payload)]"""
        return [(s, nm == 'Ok', fs[0]) for s, nm, fs in self.split(st, v, 'Result', {'Ok': 1, 'Err': 1})]

    def then(self, outs, f):
        """continue every normal outcome"""
        r = []
        for o in outs:
            if o.kind == 'ret':
                if not o.st.dead:
                    r += f(o.st, o.v)
            else:
                r.append(o)
        return r


def typenum(t):
    if t.n == 'UTerm':
        return 0
    if t.n == 'UInt' and len(t.a) == 2 and t.a[1].n in ('B0', 'B1'):
        h = typenum(t.a[0])
        return None if h is None else 2 * h + (t.a[1].n == 'B1')
    return None


class CalleeInfo:
    def __init__(self, P, callee):
        p = P.parse_callee(callee)
        self.callee = callee
        self.method = p['method']
        self.trait = p['trait']
        self.self = p['self']
        self.gen = p['gen']
        st = p['self']
        if st is not None and st.n.startswith('<impl '):
            st = pty(st.n[6:-1])
        self.self_ty = st
        keys = []
        base = None
        if st is not None:
            x = st
            while x.n in ('&', '&mut') and x.a:
                x = x.a[0]
            base = '[]' if x.n in ('[]', '[;]') else x.n
            self.base_ty = x
        else:
            self.base_ty = None
        if self.trait is not None:
            keys.append('%s:%s:%s' % (base, self.trait.n, self.method))
            keys.append('%s:%s' % (self.trait.n, self.method))
        elif st is not None:
            keys.append('%s:%s' % (base, self.method))
        if self.trait is None:
            segs = strip_gen(callee)
            keys.append('::'.join(segs[-2:]))
            keys.append('::'.join(segs))
            keys.append('fn:' + segs[-1])
            if segs and segs[0] in ('tracing', 'tracing_core'):
                keys.append('tracing:*')
        self.base = base
        self.keys = keys
        self.key = keys[0]


def shape(v, d):
    if v.op == 'adt':
        return (v.a[0], v.a[1]) + (tuple(shape(x, d - 1) for x in v.a[2]) if d > 0 else ())
    if v.op == 'tup' and d > 0:
        return tuple(shape(x, d - 1) for x in v.a)
    if v.op == 'i' and v.a[1] == 'bool':
        return v.a[0]
    if v.op == 'seq':
        return known_len(v)
    return None


def state_shape(s, lvl):
    if lvl == 0:
        return None
    if lvl == 1:
        top = max((c[0] for c in s.cells if isinstance(c[0], int)), default=0)
        v = s.cells.get((top, 0))
        return shape(v, 1) if v is not None else None
    return tuple(sorted(((repr(c), shape(v, 2)) for c, v in s.cells.items() if v.op in ('adt', 'tup', 'seq') or v.op == 'i' and v.a[1] == 'bool'),
                        key=lambda x: x[0]))


def unr(fr):
    out = []
    while fr is not None:
        out.append(fr.unr)
        fr = fr.up
    return tuple(out)


def fr_key(fr):
    out = []
    while fr is not None:
        out.append((fr.body.name, fr.site[1] if fr.site else None, fr.unr))
        fr = fr.up
    return tuple(out)


def env_key(env):
    return tuple(sorted(((k, v) for k, v in env.items() if isinstance(v, Ty)), key=lambda x: x[0]))


# ------------------------------------------------------------------ joins
def merge_facts(o, s):
    """o, s have identical cells: weaken o's facts to what both know"""
    nf = {}
    for t, f in o.facts.items():
        g = s.facts.get(t)
        if g == f:
            nf[t] = f
            continue
        m = join_fact(f, g)
        if m is not None:
            nf[t] = m
    for t, g in s.facts.items():
        if t not in o.facts and g[0] in ('ne', 'dom'):
            pass
    o.facts = nf


def exact_union(o, s):
    """o, s have identical cells: make o the union of both if that loses nothing"""
    d = [t for t in set(o.facts) | set(s.facts) if o.facts.get(t) != s.facts.get(t)]
    if not d:
        return True
    if len(d) == 1:
        f, g = o.facts.get(d[0]), s.facts.get(d[0])
        if f is None or g is None:
            o.facts.pop(d[0], None)
            return True
        m = join_fact(f, g)
        if m is not None and m[0] == 'dom':
            o.facts[d[0]] = m
            return True
    return False


def join_fact(f, g):
    if f is None or g is None:
        return None
    if f == g:
        return f

    def mask(x):
        if x[0] == 'dom':
            return x[1]
        if x[0] == '=' and x[1].op == 'i' and x[1].a[1] == 'u8':
            return 1 << x[1].a[0]
        return None
    a, b = mask(f), mask(g)
    if a is not None and b is not None:
        return ('dom', a | b)
    if f[0] == 'ne' and g[0] == 'ne':
        c = f[1] & g[1]
        return ('ne', c) if c else None
    if f[0] == 'ne' and g[0] == '=' and g[1].op == 'i':
        c = f[1] - {g[1].a[0]}
        return ('ne', c) if c else None
    if g[0] == 'ne' and f[0] == '=' and f[1].op == 'i':
        c = g[1] - {f[1].a[0]}
        return ('ne', c) if c else None
    return None


def join(sts, tag, loop=False):
    J = State()
    first = sts[0]
    classes = {}
    stag = repr(tag) if not isinstance(tag, str) else tag
    tid = T('site', (stag,)).id

    def jv(vals, path):
        a = vals[0]
        if all(v is a for v in vals):
            return a
        if all(v.op == 'adt' and v.a[0] == a.a[0] and v.a[1] == a.a[1] and len(v.a[2]) == len(a.a[2]) for v in vals if a.op == 'adt') and a.op == 'adt' \
                and all(v.op == 'adt' for v in vals):
            return T('adt', (a.a[0], a.a[1], tuple(jv([v.a[2][i] for v in vals], path + (i,)) for i in range(len(a.a[2])))))
        if all(v.op == 'tup' and len(v.a) == len(a.a) for v in vals):
            return T('tup', tuple(jv([v.a[i] for v in vals], path + (i,)) for i in range(len(a.a))))
        if all(v.op == 'clo' and v.a[0] == a.a[0] for v in vals):
            return T('clo', (a.a[0], tuple(jv([v.a[1][i] for v in vals], path + (i,)) for i in range(len(a.a[1])))) + a.a[2:])
        if all(v.op == 'iter' and v.a[0] == a.a[0] and len(v.a) == len(a.a) for v in vals):
            return T('iter', (a.a[0],) + tuple(jv([v.a[i] for v in vals], path + (i,)) if isinstance(a.a[i], T) else a.a[i] for i in range(1, len(a.a))))
        k = tuple(vals)
        p = classes.get(k)
        if p is None:
            p = classes[k] = T('phi', (tid, repr(path)))
            if all(v in U8 or (v.op == 'i' and v.a[1] == 'u8') for v in vals):
                U8.add(p)
        return p

    common = [c for c in first.cells if all(c in s.cells for s in sts[1:])]
    for c in sorted(common, key=repr):
        J.cells[c] = jv([s.cells[c] for s in sts], (c,))
    for c in sorted((g for g in first.ghost if all(g in s.ghost for s in sts[1:])), key=repr):
        J.ghost[c] = jv([s.ghost[c] for s in sts], ('g', c))
    J.log = first.log
    if not all(s.log == first.log for s in sts):
        n = 0
        while all(len(s.log) > n and s.log[n] == first.log[n] for s in sts):
            n += 1
        J.log = first.log[:n] + (('join',),)
    # facts about the new phis, and facts common to all
    kept = set()
    for k, p in classes.items():
        v0 = k[0]
        if any(v.op in ('store', 'phi') for v in k) and p not in U8 and not any(v.op in ('adt', 'tup', 'clo', 'iter', 'ref', 'i', 'lin') for v in k):
            # elements are overwritten in place: the length stays
            if any(v.op == 'store' for v in k):
                kept.add(p)
            n0 = length(v0)
            if n0.op == 'i':
                if all(v is p or fact_of(s, eq(length(v), n0)) == ('=', TRUE) for s, v in zip(sts, k)):
                    J.facts[app('len', p)] = ('=', n0)
            elif all(v is v0 or fact_of(s, eq(length(v), n0)) == ('=', TRUE) for s, v in zip(sts, k)):
                c = eq(app('len', p), n0)
                if c.op != 'i':
                    J.facts[c] = ('=', TRUE)
    if loop:
        for k, p in classes.items():
            v0 = k[0]
            if all(v is p or v.op == 'i' and abs(v.a[0]) <= 1 << 20 or v.op == 'lin' and v.a[1] == ((p, 1),) and abs(v.a[0]) <= 1 << 16 for v in k) \
                    and not any(v in U8 or v.op == 'i' and v.a[1] in ('u8', 'i8', 'bool', 'u16', 'i16', 'char') for v in k) \
                    and (k[0] is not p or p in COUNTERS):
                COUNTERS[p] = (0 if all(v is p or v.a[0] >= 0 for v in k) and COUNTERS.get(p, (0,))[0] == 0 else -MAXCOUNT, MAXCOUNT)
            else:
                COUNTERS.pop(p, None)
            if p in kept:
                pass
            elif v0.op in ('lin', 'len', 'i') and p not in U8 and p not in COUNTERS and all(v.op in ('lin', 'len', 'phi', 'i') for v in k) \
                    and not any(v.op == 'i' and v.a[1] in ('u8', 'i8', 'bool', 'char') for v in k):
                # a cursor that counts down from v0 / never becomes negative
                for c in (app('Lt', v0, p), app('Lt', p, I(0))):
                    if c.op != 'i' and all(fact_of(s, rebuild('Lt', tuple(v if a is p else a for a in c.a))) == ('=', FALSE) for s, v in zip(sts, k) if v is not v0 or c.a[0] is p):
                        J.facts[c] = ('=', FALSE)
            if v0.op == 'i' or not any(suffix_of(v, p) or suffix_of(v, v0) for v in k[1:]):
                continue
            if v0.op == 'phi':
                continue
            c = app('Lt', length(v0), app('len', p))
            if all(v is v0 or v is p or fact_of(s, rebuild('Lt', (length(v0), length(v)))) == ('=', FALSE) for s, v in zip(sts, k)):
                J.facts[c] = ('=', FALSE)
        lens = None
        for k, p in classes.items():
            if p not in U8 and p not in COUNTERS and all(v.op in ('seq', 'phi', 'sl', 'rep', 'idx', 'sym') for v in k):
                # the bytes a sequence that is built up can hold
                m = 0
                for s, v in zip(sts, k):
                    m |= s.byte_mask(v) if v is not EMPTY else 0
                    if m == FULL:
                        break
                if m and m != FULL:
                    J.facts[app('alldom', p)] = ('dom', m)
            elif p in COUNTERS and COUNTERS[p][0] == 0 or all(v.op in ('i', 'lin', 'len', 'phi') for v in k) and p not in U8 and k[0].op == 'i' and k[0].a[1] == 'usize':
                # an index that stays within a sequence
                if lens is None:
                    lens = [t for t in {x for f in sts[-1].facts for x in subterms(f) if x.op == 'len'} if t.a[0].op in ('sym', 'seq', 'sl', 'fld') and not any(x.op == 'phi' for x in subterms(t))]
                    lens = sorted(lens, key=lambda x: x.id)[:6]
                for L in lens:
                    if all(v is p and i == 0 and s.facts.get(app('Lt', L, p)) == ('=', FALSE) or s.decide(rebuild('Lt', (L, v))) is False for i, (s, v) in enumerate(zip(sts, k))):
                        J.facts[app('Lt', L, p)] = ('=', FALSE)
        # a counter of the items written so far
        cnt = [(k, p) for k, p in classes.items() if p not in U8 and all(v.op in ('i', 'lin', 'phi', 'len') for v in k) and not any(v.op == 'i' and v.a[1] in ('u8', 'i8', 'bool', 'char', 'u16', 'i16') for v in k)][:4]
        for kq, q in [(k, q) for k, q in classes.items() if any(v.op == 'seq' for v in k) and all(v.op in ('seq', 'phi') for v in k)][:6] if cnt else ():
            for kp, p in cnt:
                rel = eq(p, app('len', q))
                d0 = sub(p, app('len', q))

                def holds(s, vp, vq):
                    d = sub(vp, s.norm(length(vq)))
                    return d.op == 'i' and d.a[0] == 0 or d is d0 and s.facts.get(rel) == ('=', TRUE) or s.decide(eq(vp, s.norm(length(vq)))) is True
                if all(holds(*x) for x in zip(sts, kp, kq)):
                    J.facts[eq(p, app('len', q))] = ('=', TRUE)
    inv = [dict() for _ in sts]
    for k, p in classes.items():
        for i, v in enumerate(k):
            inv[i][p] = v
    cand = {}
    base = min(range(len(sts)), key=lambda i: len(sts[i].facts))
    fb = sts[base].facts
    back = {}
    for k, p in classes.items():
        back.setdefault(k[base], p)
    for t, f in fb.items():
        cand[t] = f
        # the same fact with the state's value replaced by the phi
        if back:
            try:
                t2 = subst(t, {v: p for v, p in back.items() if v.op not in ('i',)})
            except RecursionError:
                t2 = t
            if t2 is not t:
                cand.setdefault(t2, f)
    for t, f in cand.items():
        g = f
        for i, s in enumerate(sts):
            ti = subst(t, inv[i]) if inv[i] else t
            gi = fact_of(s, ti)
            g = join_fact(g, gi)
            if g is None:
                break
        if g is not None:
            J.facts[t] = g
    for k, p in classes.items():
        g = None
        vals = [fact_of(s, v) for s, v in zip(sts, k)]
        if loop and any(v.op == 'i' for v in k):
            continue
        if p in J.facts:
            continue
        g = vals[0]
        for x in vals[1:]:
            g = join_fact(g, x)
        if g is not None:
            J.facts[p] = g
    return J


def forall(s, H, back, ends):
    """bytes visited one by one: what every back edge knows about the visited byte holds of all bytes
    of the traversed sequence once the cursor is empty"""
    if not back or not ends:
        return
    found = {}

    def walk(a, h, c):
        if a is h:
            return
        if h.op == 'phi':
            found.setdefault(h, (a, set()))[1].add(c)
            return
        if a.op == h.op and a.op in ('iter', 'tup', 'adt', 'clo'):
            xa = a.a[2] if a.op == 'adt' else a.a[1] if a.op == 'clo' else a.a
            xh = h.a[2] if h.op == 'adt' else h.a[1] if h.op == 'clo' else h.a
            for x, y in zip(xa, xh):
                if isinstance(x, T) and isinstance(y, T):
                    walk(x, y, c)
    for c, h in H.cells.items():
        if c in s.cells:
            walk(s.cells[c], h, c)
    for p, (v0, cs) in found.items():
        e = app('idx', p, I(0))
        if v0.op in ('i', 'adt') or not all(e in b.facts or e in U8 for b in back):
            continue
        nx = {p: app('sl', p, I(1), None)}
        if not all(any(c in b.cells and b.cells[c] is subst(H.cells[c], nx) for c in cs) for b in back):
            continue
        m = 0
        for b in back:
            m |= b.dom(e)
        if m == FULL:
            continue
        emp = eq(app('len', p), I(0))
        for x in ends:
            if x.decide(emp):
                x.facts[app('alldom', v0)] = ('dom', m & x.facts.get(app('alldom', v0), ('dom', FULL))[1])
            elif v0.op in ('sym', 'fld'):
                # left early: what was visited is the part in front of the cursor
                x.facts[app('alldom', mk_slice(v0, I(0), x.norm(sub(length(v0), app('len', p)))))] = ('dom', m)


def suffix_of(v, p):
    return v.op == 'sl' and v.a[0] is p or v.op == 'seq' and v.a and v.a[-1][0] == 's' and v.a[-1][1].op == 'sl' and v.a[-1][1].a[0] is p


def fact_of(s, t):
    if t.op == 'i':
        return ('=', t)
    f = s.facts.get(t)
    if f is not None:
        return f
    n = s.norm(t)
    if n.op == 'i':
        return ('=', n)
    if t.op in ('Lt', 'Eq'):
        d = s.decide(t)
        if d is not None:
            return ('=', B(d))
    return s.facts.get(n)


def same(a, b):
    return a.cells == b.cells and a.ghost == b.ghost and all(a.facts.get(t) == f for t, f in b.facts.items()) and \
        all(t in b.facts for t in a.facts)


def shrank(o, v, anyc=False, d=0):
    """o -> v: a concrete sequence/iterator got shorter, or a concrete counter changed"""
    if d > 4 or o is v:
        return False
    if o.op == 'iter' and v.op == 'iter':
        n0, n1 = iter_known(o), iter_known(v)
        if n0 is not None and n1 is not None and n1 < n0:
            return True
    if anyc and o.op == 'i' and v.op == 'i':
        return True
    if o.op == v.op and o.op in ('adt', 'tup', 'clo', 'iter'):
        fo = o.a[2] if o.op == 'adt' else o.a[1] if o.op == 'clo' else o.a
        fv = v.a[2] if v.op == 'adt' else v.a[1] if v.op == 'clo' else v.a
        for x, y in zip(fo, fv):
            if isinstance(x, T) and isinstance(y, T) and shrank(x, y, anyc, d + 1):
                return True
    if o.op == 'seq' and v.op == 'seq':
        a, b = known_len(o), known_len(v)
        if a is not None and b is not None and b < a:
            return True
        if (a is None or b is None) and len(v.a) <= len(o.a):
            # a text of pieces, some of unknown length, that lost something at its front
            k = len(v.a)
            if (v.a[1:] if k else ()) == (o.a[len(o.a) - k + 1:] if k else ()) and \
                    (k < len(o.a) or k and v.a[0][0] == 'b' and o.a[0][0] == 'b' and len(v.a[0][1]) < len(o.a[0][1]) and o.a[0][1].endswith(v.a[0][1])):
                return True
    return False


def iter_known(t):
    n = None
    if t.a[0] == 'flat':
        o = iter_known(t.a[2]) if t.a[2].op == 'iter' else None
        c = iter_known(t.a[1]) if t.a[1].op == 'iter' else None if t.a[1].op != 'sym' else -1
        return None if o is None or c is None else o * 1000000 + c + 1
    if t.a[0] == 'split':
        k = known_len(expand(t.a[1]))
        return None if k is None or t.a[3].op != 'i' else 0 if t.a[3] is TRUE else k + 1
    if t.a[0] in ('range', 'rangei'):
        if t.a[1].op == 'i' and t.a[2].op == 'i':
            return max(0, t.a[2].a[0] - t.a[1].a[0] + (t.a[0] == 'rangei'))
        return None
    if t.a[0] in ('repeat', 'repeat_with', 'from_fn', 'successors'):
        return None
    if t.a[0] == 'take' and t.a[2].op == 'i' and iter_known(t.a[1]) is None:
        return t.a[2].a[0]
    for x in t.a[1:]:
        if isinstance(x, T):
            k = None
            if x.op in ('seq', 'sl'):
                k = known_len(expand(x))
            elif x.op == 'iter':
                k = iter_known(x)
            if k is not None:
                n = k if n is None else n + k
    if t.a[0] == 'peek' and n is not None and t.a[2].op == 'adt' and is_adt(t.a[2].a[2][0], 'Some'):
        n += 1
    return n


# ------------------------------------------------------------- literal text
def rust_str(t):
    s = t[1:-1]
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            d = s[i + 1]
            if d == 'x':
                out.append(chr(int(s[i + 2:i + 4], 16)))
                i += 4
                continue
            if d == 'u':
                e = s.index('}', i)
                out.append(chr(int(s[i + 3:e], 16)))
                i = e + 1
                continue
            out.append({'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}.get(d, d))
            i += 2
            continue
        out.append(c)
        i += 1
    return ''.join(out)


def rust_bytes(t):
    return rust_str(t[1:]).encode('latin-1')
