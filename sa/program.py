"""Whole-program index over the parsed MIR: types, impl headers, enum layouts,
generic parameter names and callee resolution."""
import os, re, pickle, hashlib
import mirparse
from mirparse import split_top, find_close, find_top


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('n', 'a', 'q', '_s')

    def __init__(self, n, a=(), q=None):
        self.n, self.a, self.q = n, tuple(a), q     # q: full path prefix (informative)

    def __repr__(self):
        if self.n == '&':
            return '&' + repr(self.a[0])
        if self.n == '&mut':
            return '&mut ' + repr(self.a[0])
        if self.n == '*':
            return '*' + repr(self.a[0])
        if self.n == '[]':
            return '[%r]' % (self.a[0],)
        if self.n == '[;]':
            return '[%r; %r]' % self.a
        if self.n == '()':
            return '(' + ', '.join(map(repr, self.a)) + ')'
        if not self.a:
            return self.n
        return self.n + '<' + ', '.join(map(repr, self.a)) + '>'

    def __eq__(self, o):
        return isinstance(o, Ty) and self.n == o.n and self.a == o.a

    def __hash__(self):
        return hash((self.n, self.a))


_tcache = {}


def pty(s):
    s = s.strip()
    r = _tcache.get(s)
    if r is None:
        r = _tcache[s] = _pty(s)
    return r


def _pty(s):
    if s.startswith('&'):
        s = s[1:].strip()
        m = re.match(r"'\w+ ?", s)
        if m:
            s = s[m.end():]
        if s.startswith('mut '):
            return Ty('&mut', [pty(s[4:])])
        return Ty('&', [pty(s)])
    if s.startswith('*const ') or s.startswith('*mut '):
        return Ty('*', [pty(s.split(' ', 1)[1])])
    if s.startswith('['):
        inner = s[1:find_close(s, 0)]
        k = find_top(inner, ';')
        if k >= 0:
            return Ty('[;]', [pty(inner[:k]), Ty(inner[k + 1:].strip())])
        return Ty('[]', [pty(inner)])
    if s.startswith('('):
        return Ty('()', [pty(x) for x in split_top(s[1:find_close(s, 0)])])
    if s.startswith('dyn '):
        names = [x for x in split_top(s[4:], '+')]
        b = pty(re.sub(r"^for<[^>]*> ", '', names[0]))
        return Ty('dyn', [b])
    if s.startswith('impl '):
        return Ty('impl', [Ty(s[5:])])
    if s.startswith('for<'):
        return pty(s[find_close(s, 3) + 1:])
    if s.startswith(('fn(', 'unsafe fn(', 'extern ')):
        return Ty('fn', [Ty(s)])
    if s.startswith('{'):
        return Ty(s)
    if s.startswith('<'):
        e = find_close(s, 0)
        inner = s[1:e]
        k = find_top(inner, ' as ')
        if k >= 0:
            return Ty('proj', [pty(inner[:k]), pty(inner[k + 4:]), Ty(s[e + 1:].lstrip(':'))])
        return Ty('proj', [pty(inner), Ty(s[e + 1:].lstrip(':'))])
    m = re.match(r'(?:\{\s*)?([iu])(8|16|32|64|128)::(MAX|MIN)(?:\s*\})?$', s)
    if m:                           # a constant argument
        w = int(m.group(2))
        v = (0 if m.group(1) == 'u' else -(1 << w - 1)) if m.group(3) == 'MIN' else (1 << (w if m.group(1) == 'u' else w - 1)) - 1
        return Ty('%d_%s%s' % (v, m.group(1), m.group(2)))
    # path with generics on segments
    segs = split_top(s, '::')
    name, args = None, []
    q = []
    for x in segs:
        if x.startswith('<') and name is not None:
            if x.startswith('<impl'):
                q.append(name)
                name = x
                continue
            args = _gargs(x[1:find_close(x, 0)])
            continue
        k = x.find('<') if not x.startswith('<') else -1
        if name is not None:
            q.append(name)
        if k > 0:
            name = x[:k]
            args = _gargs(x[k + 1:find_close(x, k)])
        else:
            name = x
            args = []
    return Ty(name or s, args, '::'.join(q))


def argument_impls(t):
    """the `impl Trait` types in the text of an argument type, as printed"""
    t = t.strip()
    while t.startswith('&'):
        t = re.sub(r"^&('\w+ )?(mut )?", '', t)
    return [t] if t.startswith('impl ') else []


def _gargs(s):
    out = []
    for x in split_top(s):
        if x.startswith("'") :
            continue
        k = find_top(x, ' = ')
        if k >= 0:                  # assoc type binding
            out.append(Ty('=' + x[:k], [pty(x[k + 3:])]))
            continue
        out.append(pty(x))
    return out


def match_ty(p, c, vars, env):
    """Structural match of pattern type p (with type variables) against c."""
    if p.n in vars and not p.a:
        if p.n in env:
            return compat(env[p.n], c)
        env[p.n] = c
        return True
    if c.n == 'proj' or p.n == 'proj' or c.n == 'impl' or p.n == 'impl':
        return True
    if p.n == 'Self' or c.n == 'Self':
        return True
    if p.n == '_' or c.n == '_':
        return True
    if p.n != c.n:
        return False
    if len(p.a) != len(c.a):
        if p.n == '()':
            return False
        # defaulted generic arguments
        return not p.a or not c.a or all(match_ty(x, y, vars, env) for x, y in zip(p.a, c.a))
    return all(match_ty(x, y, vars, env) for x, y in zip(p.a, c.a))


def strip_refs(t):
    while t.n in ('&', '&mut') and t.a:
        t = t.a[0]
    return t


LOOSE = ('proj', 'impl', 'Self', '_')


def compat(a, b):
    if a.n in LOOSE or b.n in LOOSE:
        return True
    if a.n != b.n:
        return False
    if len(a.a) != len(b.a):
        return a.n != '()' and (not a.a or not b.a)
    return all(compat(x, y) for x, y in zip(a.a, b.a))


def unalias(t, al, d=0):
    if not al or d > 6:
        return t
    if not t.a and t.n in al and (not t.q or '::' not in t.q):
        return unalias(al[t.n], al, d + 1)
    if t.a:
        xs = [unalias(x, al, d) for x in t.a]
        if any(x is not y for x, y in zip(xs, t.a)):
            return Ty(t.n, xs, t.q)
    return t


# ------------------------------------------------------------ source lookups
class Sources:
    def __init__(self, roots):
        self.roots = roots
        self.cache = {}

    def lines(self, f):
        if f not in self.cache:
            txt = None
            for r in self.roots:
                p = os.path.join(r, f)
                if os.path.exists(p):
                    txt = open(p, encoding='utf-8').read().split('\n')
                    break
            self.cache[f] = txt
        return self.cache[f]

    def span(self, f, l1, c1, l2, c2):
        ls = self.lines(f)
        if ls is None:
            return None
        if l1 == l2:
            return ls[l1 - 1][c1 - 1:c2 - 1]
        return '\n'.join([ls[l1 - 1][c1 - 1:]] + ls[l1:l2 - 1] + [ls[l2 - 1][:c2 - 1]])


def strip_rust_comments(t):
    out, i, n = [], 0, len(t)
    while i < n:
        if t.startswith('//', i):
            j = t.find('\n', i)
            j = n if j < 0 else j
            i = j
        elif t.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if t.startswith('/*', j):
                    d += 1
                    j += 2
                elif t.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            out.append(re.sub(r'[^\n]', ' ', t[i:j]))
            i = j
        elif t[i] == '"' or (t[i] in 'br' and re.match(r'(b?r#*"|b")', t[i:])):
            m = re.match(r'b?r(#*)"', t[i:])
            if m:
                end = t.find('"' + m.group(1), i + m.end())
                j = end + 1 + len(m.group(1))
            else:
                j = i + (1 if t[i] == '"' else 2)
                while j < n and t[j] != '"':
                    j += 2 if t[j] == '\\' else 1
                j += 1
            out.append('"' + re.sub(r'[^\n]', '_', t[i + 1:j - 1]) + '"')
            i = j
        elif t[i] == "'":
            m = re.match(r"'(\\u\{[0-9a-f]+\}|\\x[0-9a-fA-F]{2}|\\.|[^\\'])'", t[i:])
            if m:
                out.append(t[i:i + m.end()])
                i += m.end()
            else:
                out.append(t[i])
                i += 1
        else:
            out.append(t[i])
            i += 1
    return ''.join(out)


def generic_names(g):
    """'<'a, T: X, const N: usize>' -> [('T','type'),('N','const')]"""
    out = []
    for x in split_top(g):
        x = x.strip()
        if x.startswith("'"):
            continue
        m = re.match(r'const (\w+)', x)
        if m:
            out.append((m.group(1), 'const'))
            continue
        m = re.match(r'(\w+)', x)
        if m:
            out.append((m.group(1), 'type'))
    return out


class Impl:
    __slots__ = ('span', 'text', 'gen', 'trait', 'self_ty', 'derive', 'macro')


STD_ENUMS = {
    'Option': [('None', 0), ('Some', 1)],
    'Result': [('Ok', 0), ('Err', 1)],
    'ControlFlow': [('Continue', 0), ('Break', 1)],
    'Ordering': [('Less', -1), ('Equal', 0), ('Greater', 1)],
    'Cow': [('Borrowed', 0), ('Owned', 1)],
    'Poll': [('Ready', 0), ('Pending', 1)],
    'Entry': [('Occupied', 0), ('Vacant', 1)],
    'Bound': [('Included', 0), ('Excluded', 1), ('Unbounded', 2)],
    'Either': [('Left', 0), ('Right', 1)],
    'Infallible': [],
    'ErrorKind': [(n, i) for i, n in enumerate('NotFound PermissionDenied ConnectionRefused ConnectionReset HostUnreachable NetworkUnreachable ConnectionAborted NotConnected AddrInUse '
                                               'AddrNotAvailable NetworkDown BrokenPipe AlreadyExists WouldBlock'.split())],
    'AtomicOrdering': [('Relaxed', 0), ('Release', 1), ('Acquire', 2), ('AcqRel', 3), ('SeqCst', 4)],
}


class Program:
    def __init__(self, src_roots, crate_dirs):
        self.src = Sources(src_roots)
        self.bodies = {}           # (crate, name) -> [Body]
        self.by_method = {}        # last name -> [Body]
        self.aliases = {}
        self.impls = {}            # impl text '<impl at ..>' -> Impl
        self.enums = {}            # type last name -> [(variant, discr)]
        self.fields = {}           # struct last name or Enum::Variant -> [field names]
        self.structs = {}          # struct last name -> (generic parameters, [field types])
        self.allocs = {}
        self.crate_dirs = crate_dirs   # crate -> directory
        self.statics = {}
        self._res = {}

    def add(self, crate, bodies, allocs):
        self.allocs[crate] = allocs
        for b in bodies:
            b.crate = crate
            self.bodies.setdefault((crate, b.name), []).append(b)
            last = self.last_seg(b.name)
            self.by_method.setdefault(last, []).append(b)

    @staticmethod
    def last_seg(name):
        segs = split_top(name, '::')
        i = len(segs) - 1
        while i > 0 and segs[i].startswith('{'):
            i -= 1
        return '::'.join(segs[i:])

    def scan_types(self, crate, d):
        """enum and struct declarations of a crate's sources."""
        for root, _, fs in os.walk(d):
            if '/target' in root or '/tests' in root or '/examples' in root:
                continue
            for f in fs:
                if not f.endswith('.rs'):
                    continue
                t = strip_rust_comments(open(os.path.join(root, f), encoding='utf-8').read())
                al = self.aliases.setdefault(os.path.basename((root + '/').split('/src/')[0].rstrip('/')), {})
                for m in re.finditer(r'^(?:pub(?:\([^)]*\))?\s+)?type\s+(\w+)\s*=\s*(.+?);[ \t]*$', t, re.M | re.S):
                    if not m.group(2).strip().startswith(('impl', '&')):
                        try:
                            al.setdefault(m.group(1), pty(re.sub(r'\s+', ' ', m.group(2))))
                        except Exception:
                            pass
                for m in re.finditer(r'\benum\s+(\w+)', t):
                    b = t.find('{', m.end())
                    try:
                        e = find_close_brace(t, b)
                    except Exception:
                        continue
                    self.enums.setdefault(m.group(1), self.parse_enum(m.group(1), t[b + 1:e]))
                for m in re.finditer(r'\bstruct\s+(\w+)\s*(<)?', t):
                    i = m.end()
                    gen = []
                    if m.group(2):
                        i = find_close(t, m.end() - 1) + 1
                        gen = [re.split(r'[:=]', g)[0].strip() for g in split_top(t[m.end():i - 1])]
                        gen = [g[6:].strip() if g.startswith('const ') else g for g in gen if not g.startswith("'")]
                    j = i
                    while j < len(t) and t[j] not in '{(;':
                        j += 1
                    if j < len(t) and t[j] == '{':
                        e = find_close_brace(t, j)
                        self.fields.setdefault(m.group(1), self.field_names(t[j + 1:e]))
                    elif j < len(t) and t[j] == '(':
                        e = find_close(t, j)
                    else:
                        continue
                    try:
                        self.structs.setdefault(m.group(1), (gen, self.field_types(t[j + 1:e], t[j] == '{')))
                    except Exception:
                        pass

    def field_types(self, s, named):
        out = []
        for x in split_top(s):
            x = re.sub(r'#\[[^\]]*\]', '', x).strip()
            if not x:
                continue
            x = re.sub(r'^pub(?:\([^)]*\))?\s+', '', x)
            if named:
                x = x[x.index(':') + 1:].strip()
            out.append(pty(re.sub(r'\s+', ' ', x)))
        return out

    def field_names(self, s):
        out = []
        for x in split_top(s):
            x = re.sub(r'#\[[^\]]*\]', '', x).strip()
            m = re.match(r'(?:pub(?:\([^)]*\))?\s+)?(?:r#)?(\w+)\s*:', x)
            if m:
                out.append(m.group(1))
        return out

    def parse_enum(self, name, s):
        out, d = [], -1
        for x in split_top(s):
            x = re.sub(r'#\[(?:[^\[\]]|\[[^\]]*\])*\]', '', x).strip()
            m = re.match(r'(\w+)', x)
            if not m:
                continue
            v = m.group(1)
            rest = x[m.end():].strip()
            if rest.startswith('{'):
                self.fields[name + '::' + v] = self.field_names(rest[1:find_close_brace(rest, 0)])
                rest = rest[find_close_brace(rest, 0) + 1:].strip()
            elif rest.startswith('('):
                rest = rest[find_close(rest, 0) + 1:].strip()
            if rest.startswith('='):
                try:
                    e = rest[1:].strip()
                    mm = re.match(r"b'(\\?.)'$", e)
                    d = ord(eval("'" + mm.group(1) + "'")) if mm else int(e.replace('_', ''), 0)
                except Exception:
                    d = None
            else:
                d = None if d is None else d + 1
            out.append((v, d))
        return out

    def variants(self, ty_name):
        return self.enums.get(ty_name) or STD_ENUMS.get(ty_name)

    # ---------------------------------------------------------------- impls
    def impl_of(self, name):
        m = re.search(r'<impl at (.*?):(\d+):(\d+): (\d+):(\d+)>', name)
        if not m:
            return None
        key = m.group(0)
        if key in self.impls:
            return self.impls[key]
        f, l1, c1, l2, c2 = m.group(1), *map(int, m.groups()[1:])
        txt = self.src.span(f, l1, c1, l2, c2)
        im = Impl()
        im.span, im.text, im.gen, im.trait, im.self_ty, im.derive, im.macro = (f, l1), txt, [], None, None, None, False
        self.impls[key] = im
        if txt is None:
            im.macro = True
            return im
        t = re.sub(r'\s+', ' ', strip_rust_comments(txt)).strip()
        if not t.startswith(('impl', 'unsafe impl')):
            im.derive = t.split('::')[-1].strip()
            return im
        t = t[t.index('impl') + 4:].strip()
        if t.startswith('<'):
            e = find_close(t, 0)
            im.gen = generic_names(t[1:e])
            t = t[e + 1:].strip()
        k = find_top(t, ' where ')
        if k >= 0:
            t = t[:k]
        if '$' in t:
            im.macro = True
        k = find_top(t, ' for ')
        if k >= 0:
            im.trait = pty(t[:k].lstrip('?!'))
            im.self_ty = pty(t[k + 5:])
        else:
            im.self_ty = pty(t)
        al = self.aliases.get(os.path.basename(f.split('/src/')[0]))
        if al and not im.macro:
            gs = {n for n, _ in im.gen}
            al = {k: v for k, v in al.items() if k not in gs}
            im.self_ty = unalias(im.self_ty, al)
            if im.trait is not None:
                im.trait = unalias(im.trait, al)
        return im

    def fn_generics(self, b):
        """Generic parameter names declared on the function itself."""
        if getattr(b, '_gen', None) is not None:
            return b._gen
        b._gen = []
        last = split_top(b.name, '::')[-1]
        if b.kind != 'fn' or last.startswith('{') or not b.file:
            return b._gen
        ls = self.src.lines(b.file)
        if ls is None:
            return b._gen
        pat = re.compile(r'\bfn\s+(?:r#)?' + re.escape(last) + r'\s*(<)?')
        # nearest declaration at or above the first recorded line
        for ln in range(min(b.line, len(ls)), max(0, b.line - 40), -1):
            m = pat.search(ls[ln - 1])
            if m:
                if m.group(1):
                    txt = '\n'.join(ls[ln - 1:ln + 15])
                    s = txt.index('<', m.start())
                    b._gen = generic_names(txt[s + 1:find_close(txt, s)])
                # argument-position impl trait adds no nameable parameter
                break
        return b._gen

    # ------------------------------------------------------------- resolution
    def sig_mentions(self, b, tyname):
        for _, t in b.args:
            if re.search(r'\b%s\b' % re.escape(tyname), t):
                return True
        return bool(re.search(r'\b%s\b' % re.escape(tyname), b.ret or ''))

    def resolve(self, crate, callee):
        key = (crate, callee)
        r = self._res.get(key)
        if r is None:
            r = self._res[key] = self._resolve(crate, callee)
        return r

    def parse_callee(self, callee):
        """-> dict(self_ty, trait, method, generics, path)"""
        s = callee.strip()
        out = {'self': None, 'trait': None, 'method': None, 'gen': [], 'path': None, 'tail': ''}
        # closures / promoted suffixes
        m = re.search(r'((?:::\{[a-z_]+#\d+\})+|::promoted\[\d+\])$', s)
        if m:
            out['tail'] = m.group(1)
            s = s[:m.start()]
        segs = split_top(s, '::')
        gen = []
        if segs and segs[-1].startswith('<') and len(segs) > 1 and not segs[-1].startswith('<impl at '):
            gen = _gargs(segs[-1][1:-1])
            segs = segs[:-1]
        elif '<' in segs[-1] and not segs[-1].startswith('<'):
            k = segs[-1].index('<')
            gen = _gargs(segs[-1][k + 1:find_close(segs[-1], k)])
            segs[-1] = segs[-1][:k]
        out['gen'] = gen
        out['method'] = segs[-1]
        head = segs[:-1]
        if head and head[0].startswith('<') and not head[0].startswith('<impl'):
            inner = head[0][1:-1]
            k = find_top(inner, ' as ')
            if k >= 0:
                out['self'], out['trait'] = pty(inner[:k]), pty(inner[k + 4:])
            else:
                out['self'] = pty(inner)
            out['path'] = '::'.join(head[1:] + [segs[-1]])
            if len(head) > 1:
                out['tail_path'] = head[1:] + [segs[-1]]
        elif head:
            out['path'] = '::'.join(x for x in head + [segs[-1]] if not (x.startswith('<') and not x.startswith('<impl')))
            h = head[-1]
            if h.startswith('<impl ') and not h.startswith('<impl at '):
                inner = h[6:-1]
                k = find_top(inner, ' for ')
                if k >= 0:
                    out['trait'], out['self'] = pty(inner[:k]), pty(inner[k + 5:])
                else:
                    out['self'] = pty(inner)
            else:
                out['self'] = pty('::'.join(head))
        else:
            out['path'] = segs[-1]
        return out

    def _resolve(self, crate, callee):
        """-> (Body, env) or None"""
        p = self.parse_callee(callee)
        tail = p['tail']
        # nested item below a trait method: <T as Trait>::m::inner
        if p.get('tail_path'):
            base = self._resolve(crate, callee[:find_close(callee, 0) + 1] + '::' + p['tail_path'][0])
            if base:
                nm = base[0].name + ''.join('::' + x for x in p['tail_path'][1:]) + tail
                bs = self.bodies.get((base[0].crate, nm))
                if bs:
                    return bs[-1], base[1]
            return None
        cands = []
        if p['trait'] is None:
            # free function by exact path
            for c, path in self.path_variants(crate, p['path'] + tail):
                bs = self.bodies.get((c, path))
                if bs:
                    b = bs[-1]
                    env = self.bind_fn(b, p['gen'])
                    return b, env
            # inherent method
            st = p['self']
            if st is None:
                return None
            for b in self.by_method.get(p['method'] + tail, []):
                im = self.impl_of(b.name)
                if im is None or im.trait is not None or im.derive:
                    continue
                env = self.match_impl(b, im, st)
                if env is not None:
                    cands.append((b, env))
        else:
            for b in self.by_method.get(p['method'] + tail, []):
                im = self.impl_of(b.name)
                if im is None:
                    # default method of a local trait: Trait::method
                    segs = split_top(b.name[:len(b.name) - len(tail)] if tail else b.name, '::')
                    if len(segs) >= 2 and segs[-2] == p['trait'].n:
                        cands.append((b, {'Self': p['self']}, True))
                    continue
                if im.derive:
                    if im.derive == p['trait'].n and self.sig_mentions(b, p['self'].n):
                        cands.append((b, {}))
                    continue
                if im.trait is None:
                    continue
                env = {}
                vars = {n for n, _ in im.gen}
                if im.trait.n.startswith('$') or im.trait.n != p['trait'].n:
                    continue
                if not im.macro and not match_ty(im.trait, p['trait'], vars, env):
                    continue
                if im.macro and not self.macro_instance(b, im, p['self'], p['trait']):
                    continue
                e2 = self.match_impl(b, im, p['self'], env)
                if e2 is not None:
                    cands.append((b, e2))
            real = [c for c in cands if len(c) == 2]
            if real:
                cands = real
            else:
                cands = [c[:2] for c in cands]
        if not cands:
            return None
        if len(cands) > 1 and p['trait'] is not None and strip_refs(p['self']).n in ('proj', 'impl') \
                and len({(c[0].crate, c[0].name) for c in cands}) > 1:
            return None             # an associated or anonymous type: the static type does not tell which implementation
        if len(cands) > 1:
            # prefer the exact signature / own crate / last (runtime MIR of const fns)
            names = {(c[0].crate, c[0].name) for c in cands}
            if len(names) > 1 or True:
                own = [c for c in cands if c[0].crate == crate]
                if own and p['path'] and not p['trait']:
                    cands = own
            cands = self.rank(cands, p)
        b, env = cands[-1]
        env = dict(env)
        env.update(self.bind_fn(b, p['gen']))
        return b, env

    def rank(self, cands, p):
        def score(c):
            b, env = c
            im = self.impl_of(b.name)
            s = 0
            if im is not None and im.self_ty is not None and p['self'] is not None and not im.macro:
                if im.self_ty.n == p['self'].n:
                    s += 2
                if im.self_ty == p['self']:
                    s += 4
                if im.trait is not None and p['trait'] is not None and im.trait == p['trait']:
                    s += 3
                if im.self_ty.n in {n for n, _ in im.gen}:
                    s -= 1
            return s
        best = max(score(c) for c in cands)
        return [c for c in cands if score(c) == best]

    def match_impl(self, b, im, st, env=None):
        env = {} if env is None else env
        vars = {n for n, _ in im.gen}
        if im.self_ty is None:
            return None
        if im.macro or '$' in repr(im.self_ty):
            if im.self_ty.n.startswith('$') or im.macro and not self._ty_ok(im.self_ty, st):
                if not self.sig_self(b, im, st):
                    return None
                return dict(env)
        if match_ty(im.self_ty, st, vars, env):
            return env
        return None

    def macro_instance(self, b, im, st, tr):
        """is this body of a macro-written trait impl the one for this self type and these trait arguments? The
        macro parameters stand for any type; the signature of the body names the actual ones"""
        vars = {n for n, _ in im.gen} | set(re.findall(r'\$\w+', repr(im.trait) + ' ' + repr(im.self_ty)))
        env = {}
        if not match_ty(im.trait, tr, vars, env) or not match_ty(im.self_ty, st, vars, env):
            return False
        gen = {n for n, _ in im.gen}
        if gen or not b.args or not tr.a:
            return True
        if tr.n in ('From', 'TryFrom'):
            return compat(pty(b.args[0][1]), tr.a[0])
        if tr.n == 'Into':
            return compat(pty(b.ret), tr.a[0])
        return True

    def _ty_ok(self, p, st):
        return p.n == st.n

    def sig_self(self, b, im, st):
        """macro-generated impl: decide the instance from the signature."""
        if b.args:
            t0 = pty(b.args[0][1])
            t = t0
            while t.n in ('&', '&mut'):
                t = t.a[0]
            dbg = {n: pl for n, pl in b.debug}
            if dbg.get('self') == '_1':
                return t.n == st.n
        if self.sig_mentions(b, st.n):
            # reject a sibling instance that merely mentions st as another type
            r = pty(b.ret)
            if im.trait is not None and im.trait.n == 'From':
                return r.n == st.n
            return True
        return False

    def bind_fn(self, b, gen):
        env = {}
        names = self.fn_generics(b)
        imps = []
        for _, t in b.args:
            for x in argument_impls(t):
                imps.append(x)
        if imps and gen and len(gen) == len(names) + len(imps):
            # argument-position `impl Trait`: one unnamed parameter each, after the named ones
            if len(set(imps)) == len(imps):
                for x, t in zip(imps, gen[len(names):]):
                    if 'impl' not in repr(t):
                        env[x] = t
            gen = gen[:len(names)]
        if gen and len(gen) == len(names):
            for (n, _), t in zip(names, gen):
                env[n] = t
        elif gen and len(gen) < len(names):
            for (n, _), t in zip(names[-len(gen):], gen):
                env[n] = t
        elif gen and names:
            for (n, _), t in zip(names, gen[-len(names):]):
                env[n] = t
        return env

    def path_variants(self, crate, path):
        yield crate, path
        segs = split_top(path, '::')
        if segs[0] in self.crate_dirs:
            yield segs[0], '::'.join(segs[1:])
        if segs[0] in ('crate', 'self'):
            yield crate, '::'.join(segs[1:])

    def find_const(self, crate, ident, file=None):
        """a const/static item by its (possibly qualified) source name."""
        last = ident.split('::')[-1]
        c = [b for b in self.by_method.get(last, []) if b.kind in ('const', 'static')]
        c = [b for b in c if '{constant' not in b.name]
        own = [b for b in c if b.crate == crate]
        c = own or c
        if len(c) > 1 and '::' in ident:
            q = ident.split('::')[-2]
            c2 = [b for b in c if q in b.name or self.sig_mentions(b, q)]
            c = c2 or c
        return c


def find_close_brace(t, i):
    d = 0
    for j in range(i, len(t)):
        if t[j] in '{([':
            d += 1
        elif t[j] in '})]':
            d -= 1
            if d == 0:
                return j
    raise ValueError('unbalanced')
