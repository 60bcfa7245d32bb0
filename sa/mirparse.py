"""Parser for rustc's textual MIR (pinned nightly-2023-11-04, --emit=mir,
-Zmir-opt-level=0 -Zmir-include-spans=yes -Ztrim-diagnostic-paths=no).

Produces, per body: locals with types, debug names, basic blocks of parsed
statements and terminators.  Everything downstream works on these structures;
no check looks at source text except to resolve names rustc's printer elides
(impl headers, generic parameter names, `const _`, enum definitions)."""
import re, os

OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}
CLOSE = set(')]}>')


class ParseError(Exception):
    pass


def strip_comment(line):
    """Returns (code, span) of one MIR line."""
    m = None
    for m in re.finditer(r'\s*// (?:in )?scope \d+ at (.*)$|\s*// return place.*? at (.*)$|\s*// in scope.*$', line):
        break
    # a '//' may occur in a string constant: take the last comment marker
    idx = max(line.rfind('// scope '), line.rfind('// in scope '), line.rfind('// return place'))
    if idx < 0:
        return line.rstrip(), None
    code, com = line[:idx].rstrip(), line[idx:]
    m = re.search(r' at (.*)$', com)
    return code, (m.group(1).strip() if m else None)


def skip_str(s, i):
    """s[i] is a quote; index just after the closing quote."""
    q = s[i]
    j = i + 1
    while j < len(s):
        if s[j] == '\\':
            j += 2
            continue
        if s[j] == q:
            return j + 1
        j += 1
    raise ParseError('unterminated string: ' + s[i:i + 60])


def is_char_lit(s, i):
    return re.match(r"'(\\u\{[0-9a-f]+\}|\\x[0-9a-f]{2}|\\.|[^\\'])'", s[i:]) is not None


def find_close(s, i):
    """s[i] opens a bracket; index of its matching closer."""
    depth = 0
    j = i
    while j < len(s):
        c = s[j]
        if c == '"':
            j = skip_str(s, j)
            continue
        if c == "'" and is_char_lit(s, j):
            j = skip_str(s, j)
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
            if depth == 0:
                return j
        elif c == '>':
            if s[j - 1] in '-=':
                pass
            else:
                depth -= 1
                if depth == 0:
                    return j
        j += 1
    raise ParseError('unbalanced: ' + s[i:i + 80])


def split_top(s, sep=','):
    out, depth, cur, j = [], 0, 0, 0
    while j < len(s):
        c = s[j]
        if c == '"':
            j = skip_str(s, j)
            continue
        if c == "'" and is_char_lit(s, j):
            j = skip_str(s, j)
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>' and s[j - 1] not in '-=':
            depth -= 1
        elif depth == 0 and s.startswith(sep, j):
            out.append(s[cur:j].strip())
            j += len(sep)
            cur = j
            continue
        j += 1
    last = s[cur:].strip()
    if last or out:
        out.append(last)
    if out and out[-1] == '' and sep == ',':
        out.pop()
    return out


def find_top(s, pat, start=0):
    """First index of `pat` at bracket depth 0 and outside strings, or -1."""
    depth, j = 0, start
    while j < len(s):
        c = s[j]
        if depth == 0 and s.startswith(pat, j):
            return j
        if c == '"':
            j = skip_str(s, j)
            continue
        if c == "'" and is_char_lit(s, j):
            j = skip_str(s, j)
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>' and s[j - 1] not in '-=':
            depth -= 1
        j += 1
    return -1


# ---------------------------------------------------------------- places
# place = (local:int, (proj, ...)) with proj one of
#  ('deref',) ('field', i, ty) ('downcast', name) ('index', local)
#  ('cindex', off, from_end) ('subslice', lo, hi, from_end)
def parse_place(s):
    s = s.strip()
    pl, rest = _place(s)
    if rest.strip():
        raise ParseError('trailing in place: %r' % s)
    return pl


def _place(s):
    if s[0] == '(':
        e = find_close(s, 0)
        inner, rest = s[1:e], s[e + 1:]
        if inner[0] == '*':
            pl, r = _place(inner[1:])
            if r.strip():
                raise ParseError('deref: ' + s)
            pl = (pl[0], pl[1] + (('deref',),))
        else:
            pl, r = _place(inner)
            r = r.strip()
            if r.startswith('as '):
                pl = (pl[0], pl[1] + (('downcast', r[3:].strip()),))
            elif r.startswith('.'):
                m = re.match(r'\.(\d+): (.*)$', r, re.S)
                if not m:
                    raise ParseError('field: ' + s)
                pl = (pl[0], pl[1] + (('field', int(m.group(1)), m.group(2)),))
            elif r:
                raise ParseError('place: ' + s)
    else:
        m = re.match(r'_(\d+)', s)
        if not m:
            raise ParseError('place: ' + s[:80])
        pl, rest = (int(m.group(1)), ()), s[m.end():]
    while rest.startswith('['):
        e = find_close(rest, 0)
        idx, rest = rest[1:e], rest[e + 1:]
        m = re.match(r'_(\d+)$', idx)
        if m:
            p = ('index', int(m.group(1)))
        elif re.match(r'(-?)(\d+) of (\d+)$', idx):
            m = re.match(r'(-?)(\d+) of (\d+)$', idx)
            p = ('cindex', int(m.group(2)), m.group(1) == '-')
        elif re.match(r'(\d+):(-?)(\d*)$', idx):
            m = re.match(r'(\d+):(-?)(\d*)$', idx)
            p = ('subslice', int(m.group(1)), int(m.group(3) or 0), m.group(2) == '-' or m.group(3) == '')
        elif re.match(r'(\d+)\.\.(-?)(\d*)$', idx):
            m = re.match(r'(\d+)\.\.(-?)(\d*)$', idx)
            p = ('subslice', int(m.group(1)), int(m.group(3) or 0), m.group(2) == '-' or m.group(3) == '')
        else:
            raise ParseError('index: ' + idx)
        pl = (pl[0], pl[1] + (p,))
    return pl, rest


# ---------------------------------------------------------------- operands
# ('copy', place) ('move', place) ('const', text)
def parse_operand(s):
    s = s.strip()
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:].strip())
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('_') and re.match(r'_\d', s) or s.startswith('('):
        return ('copy', parse_place(s))
    if re.match(r'[<A-Za-z{]', s):
        return ('const', s)          # a function item
    raise ParseError('operand: ' + s[:100])


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne', 'Ge', 'Gt',
          'Offset', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked', 'CheckedAdd', 'CheckedSub', 'CheckedMul',
          'CheckedShl', 'CheckedShr'}
UNOPS = {'Not', 'Neg'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('&raw const '):
        return ('addr', 'const', parse_place(s[11:]))
    if s.startswith('&raw mut '):
        return ('addr', 'mut', parse_place(s[9:]))
    if s.startswith('&mut '):
        return ('ref', 'mut', parse_place(s[5:]))
    if s.startswith('&fake '):
        return ('ref', 'shared', parse_place(s.split(' ')[-1]))
    if s.startswith('&/*tls*/ '):
        return ('use', ('const', '&/*tls*/ ' + s[9:]))
    if s.startswith('&') and not s.startswith('&&'):
        return ('ref', 'shared', parse_place(s[1:]))
    m = re.match(r'([A-Za-z]+)\(', s)
    if m and find_close(s, m.end() - 1) == len(s) - 1:
        op, inner = m.group(1), s[m.end():-1]
        if op in BINOPS:
            a, b = split_top(inner)
            return ('bin', op, parse_operand(a), parse_operand(b))
        if op in UNOPS:
            return ('un', op, parse_operand(inner))
        if op == 'Len':
            return ('len', parse_place(inner))
        if op == 'discriminant':
            return ('discr', parse_place(inner))
        if op in ('SizeOf', 'AlignOf'):
            return ('nullary', op, inner)
        if op == 'ShallowInitBox':
            a = split_top(inner)
            return ('box', parse_operand(a[0]), a[1])
    if s.startswith('deref_copy '):
        return ('use', ('copy', parse_place(s[11:])))
    # cast
    i = find_top(s, ' as ')
    if i > 0 and s.endswith('(PointerCoercion(ReifyFnPointer))') and not s.startswith(('move ', 'const ', 'copy ', '_', '(')):
        return ('cast', parse_operand('const ' + s[:i]), s[i + 4:s.rfind(' (PointerCoercion')], 'PointerCoercion(ReifyFnPointer)')
    if i > 0 and s.endswith(')') and (s.startswith(('move ', 'const ', 'copy ', '_', '('))):
        k = s.rfind(' (')
        # kind may itself contain parens: PointerCoercion(Unsize)
        k = -1
        j = i + 4
        k = find_top(s, ' (', j)
        # several ' (' at top level can exist in fn types: take the last
        while True:
            n = find_top(s, ' (', k + 1)
            if n < 0:
                break
            k = n
        if k > 0:
            try:
                op = parse_operand(s[:i])
                return ('cast', op, s[i + 4:k], s[k + 2:-1])
            except ParseError:
                pass
    if s.startswith(('move ', 'const ', 'copy ')) or re.match(r'_\d+', s):
        return ('use', parse_operand(s))
    if s.startswith('['):
        e = find_close(s, 0)
        inner = s[1:e]
        semi = find_top(inner, '; ')
        if semi >= 0:
            return ('repeat', parse_operand(inner[:semi]), inner[semi + 2:].strip())
        return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('('):
        if s == '()':
            return ('tuple', [])
        e = find_close(s, 0)
        if e == len(s) - 1:
            # a projected place copy or a tuple
            try:
                return ('use', ('copy', parse_place(s)))
            except (ParseError, IndexError):
                return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
        return ('use', ('copy', parse_place(s)))
    if s.startswith('{closure@') or s.startswith('{coroutine@') or s.startswith('{async'):
        e = find_close(s, 0)
        rest = s[e + 1:].strip()
        caps = []
        if rest.startswith('{'):
            for f in split_top(rest[1:find_close(rest, 0)]):
                caps.append(parse_operand(f[find_top(f, ': ') + 2:]))
        elif rest.startswith('('):
            m = rest[1:].find('{')
            if rest.endswith('}') and m >= 0:
                b = rest.index('{')
                for f in split_top(rest[b + 1:-1]):
                    caps.append(parse_operand(f[find_top(f, ': ') + 2:]))
        return ('closure', s[:e + 1], caps)
    # aggregate: Path { f: op } | Path(op, ..) | Path
    b = find_top(s, ' { ')
    if b > 0 and s.endswith('}'):
        names, ops = [], []
        for f in split_top(s[b + 3:-1]):
            k = find_top(f, ': ')
            names.append(f[:k])
            ops.append(parse_operand(f[k + 2:]))
        return ('adt', s[:b], names, ops)
    if s.endswith(')'):
        i = agg_paren(s)
        if i > 0:
            return ('adt', s[:i], None, [parse_operand(x) for x in split_top(s[i + 1:-1])])
    return ('adt', s, None, [])


def agg_paren(s):
    """index of the '(' that opens the final top level argument list."""
    j, depth, last = 0, 0, -1
    while j < len(s):
        c = s[j]
        if c == '"':
            j = skip_str(s, j)
            continue
        if c == "'" and is_char_lit(s, j):
            j = skip_str(s, j)
            continue
        if c in '([{<':
            if c == '(' and depth == 0:
                e = find_close(s, j)
                if e == len(s) - 1:
                    return j
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>' and s[j - 1] not in '-=':
            depth -= 1
        j += 1
    return -1


def parse_targets(s):
    """'[return: bb1, unwind: bb2]' or 'bb3' or 'unwind continue'."""
    s = s.strip()
    out = {}
    if s.startswith('['):
        for p in split_top(s[1:-1]):
            if ': ' in p:
                k, v = p.rsplit(': ', 1)
                out[k.strip()] = v.strip()
            else:
                out['unwind'] = p.split(' ', 1)[1]
    elif re.match(r'bb\d+$', s):
        out['return'] = s
    else:
        out['unwind'] = s
    return out


def bbn(s):
    m = re.match(r'bb(\d+)$', s or '')
    return int(m.group(1)) if m else None


class Stmt:
    __slots__ = ('kind', 'place', 'rv', 'span', 'consts', 'text')

    def __init__(s, kind, place, rv, span, text):
        s.kind, s.place, s.rv, s.span, s.consts, s.text = kind, place, rv, span, [], text


class Term:
    __slots__ = ('kind', 'a', 'span', 'consts', 'text')

    def __init__(s, kind, a, span, text):
        s.kind, s.a, s.span, s.consts, s.text = kind, a, span, [], text


class Body:
    def __init__(self, kind, name, sig):
        self.kind, self.name = kind, name      # kind: fn const static promoted
        self.sig = sig
        self.args, self.ret = [], None         # [(local, ty)]
        self.locals = {}                       # local -> ty
        self.debug = []                        # (name, place text)
        self.blocks = []                       # list of (stmts, term, cleanup)
        self.file = None
        self.line = None
        self.promoted_of = None
        self.crate = None
        self.variants = []

    def __repr__(self):
        return '<Body %s>' % self.name


HEAD = re.compile(r'^(fn|const|static mut|static|promoted\[\d+\] in) (.*)$')


def parse_file(path, crate):
    bodies, allocs = [], {}
    with open(path) as f:
        lines = f.read().split('\n')
    i, n = 0, len(lines)
    while i < n:
        ln = lines[i]
        if not ln or ln.startswith('//') or ln.startswith(' '):
            i += 1
            continue
        if ln.startswith('alloc'):
            m = re.match(r'(alloc\d+) \((.*)\) \{', ln)
            i += 1
            data = bytearray()
            refs = []
            if m and not ln.rstrip().endswith('}'):
                while i < n and not lines[i].startswith('}'):
                    row = lines[i].split('│')[0]
                    if '╾' in row or '0x' in row.split(' ')[0]:
                        row = re.sub(r'^\s*0x[0-9a-f]+ ?│?', '', row)
                    row = lines[i]
                    parts = [p for p in row.split('│')]
                    body = parts[0] if len(parts) < 3 else parts[1]
                    for tok in body.split():
                        if re.match(r'^[0-9a-f]{2}$', tok):
                            data.append(int(tok, 16))
                        else:
                            refs.append(tok)
                    i += 1
            if m:
                allocs[m.group(1)] = (m.group(2), bytes(data), refs)
            i += 1
            continue
        m = HEAD.match(ln)
        if not m and ln.endswith('= {'):
            m = re.match(r'^()(.*)$', ln)
        if not m:
            i += 1
            continue
        kind = (m.group(1) or 'const').split(' ')[0]
        # find end
        j = i + 1
        if ln.rstrip().endswith('{'):
            while j < n and lines[j] != '}':
                j += 1
            bodies.append(parse_body(kind, ln, lines[i + 1:j], crate))
        i = j + 1
    return bodies, allocs


def parse_body(kind, head, lines, crate):
    code = head
    if kind == 'fn':
        h = code[3:].rstrip()
        assert h.endswith('{')
        h = h[:-1].rstrip()
        # name up to the '(' that opens '(_1: ..' or '()'
        p = -1
        j, depth = 0, 0
        while j < len(h):
            c = h[j]
            if c == '(' and depth == 0 and (h.startswith('(_1: ', j) or h.startswith('()', j)):
                p = j
                break
            if c in '<[{(':
                depth += 1
            elif c in ']})' or (c == '>' and h[j - 1] not in '-='):
                depth -= 1
            j += 1
        name = h[:p]
        e = find_close(h, p)
        b = Body('fn', name, h)
        for a in split_top(h[p + 1:e]):
            k, t = a.split(': ', 1)
            b.args.append((int(k[1:]), t))
            b.locals[int(k[1:])] = t
        b.ret = h[e + 1:].strip()
        if b.ret.startswith('-> '):
            b.ret = b.ret[3:]
        b.locals[0] = b.ret
    else:
        h = code.rstrip()
        h = h[:-1].rstrip()
        if h.endswith('='):
            h = h[:-1].rstrip()
        pn = None
        if kind.startswith('promoted'):
            m = re.match(r'promoted\[(\d+)\] in (.*)$', h)
            pn, h = int(m.group(1)), m.group(2)
            kind = 'promoted'
        else:
            for pre in ('const ', 'static mut ', 'static '):
                if h.startswith(pre):
                    h = h[len(pre):]
                    break
        # name: type  -- the type follows the first top level ': ' that is not part of '::'
        k = -1
        j = 0
        while True:
            k = find_top(h, ': ', j)
            if k < 0:
                break
            if k > 0 and h[k - 1] == ':':
                j = k + 1
                continue
            break
        name, ty = h[:k], h[k + 2:]
        b = Body(kind, name, h)
        if pn is not None:
            b.promoted_of = (name, pn)
            b.name = '%s::promoted[%d]' % (name, pn)
        b.ret = ty
        b.locals[0] = ty
    b.crate = crate
    stmts, cur, cleanup = [], None, False
    last = None
    i = 0
    while i < len(lines):
        raw = lines[i]
        i += 1
        st = raw.strip()
        if not st:
            continue
        if st.startswith('//'):
            if last is not None and st.startswith('// + const_: '):
                last.consts.append(st[len('// + const_: '):])
            continue
        code, span = strip_comment(raw)
        code = code.strip()
        if span and b.file is None and span != 'no-location':
            mm = re.match(r'(.*?):(\d+):(\d+): (\d+):(\d+)', span)
            if mm:
                b.file, b.line = mm.group(1), int(mm.group(2))
        if cur is None or code.startswith('bb') and re.match(r'bb\d+( \(cleanup\))?: \{', code):
            m = re.match(r'bb(\d+)( \(cleanup\))?: \{', code)
            if m:
                cur = int(m.group(1))
                stmts = []
                while len(b.blocks) <= cur:
                    b.blocks.append(None)
                b.blocks[cur] = [stmts, None, bool(m.group(2))]
                last = None
                continue
            m = re.match(r'let (?:mut )?_(\d+): (.*);$', code)
            if m:
                b.locals[int(m.group(1))] = m.group(2)
                continue
            m = re.match(r'debug (\S+) => (.*);$', code)
            if m:
                b.debug.append((m.group(1), m.group(2)))
                continue
            continue
        if code == '}':
            continue
        # join multi-line statements (rare)
        while not code.endswith(';') and i < len(lines) and not lines[i].strip().startswith('//'):
            c2, sp2 = strip_comment(lines[i])
            code += ' ' + c2.strip()
            span = span or sp2
            i += 1
        x = parse_stmt(code.rstrip(';'), span)
        if x is None:
            last = None
            continue
        last = x
        if isinstance(x, Term):
            b.blocks[cur][1] = x
        else:
            stmts.append(x)
    return b


def parse_stmt(code, span):
    if code.startswith(('StorageLive', 'StorageDead', 'FakeRead', 'Retag', 'AscribeUserType', 'nop', 'Coverage', 'ConstEvalCounter', 'PlaceMention')):
        return None
    if code.startswith('goto -> '):
        return Term('goto', bbn(code[8:]), span, code)
    if code == 'return':
        return Term('return', None, span, code)
    if code in ('resume', 'unreachable') or code.startswith('terminate') or code.startswith('coroutine_drop'):
        return Term(code.split('(')[0], None, span, code)
    if code.startswith('switchInt('):
        e = find_close(code, 9)
        op = parse_operand(code[10:e])
        tg = code[e + 1:].strip()
        assert tg.startswith('-> [')
        targets, other = [], None
        for p in split_top(tg[4:-1]):
            k, v = p.split(': ')
            if k == 'otherwise':
                other = bbn(v)
            else:
                targets.append((int(k), bbn(v)))
        return Term('switch', (op, targets, other), span, code)
    if code.startswith('drop('):
        e = find_close(code, 4)
        return Term('drop', (parse_place(code[5:e]), bbn(parse_targets(code[e + 1:].strip()[3:]).get('return'))), span, code)
    if code.startswith('assert('):
        e = find_close(code, 6)
        parts = split_top(code[7:e])
        cond = parts[0]
        neg = cond.startswith('!')
        op = parse_operand(cond[1:] if neg else cond)
        ops = []
        for p in parts[2:]:
            ops.append(parse_operand(p))
        return Term('assert', (op, not neg, parts[1], ops, bbn(parse_targets(code[e + 1:].strip()[3:]).get('success'))), span, code)
    if code.startswith('falseEdge') or code.startswith('falseUnwind'):
        t = parse_targets(code.split('-> ', 1)[1])
        return Term('goto', bbn(t.get('real')), span, code)
    if code.startswith('discriminant('):
        e = find_close(code, 12)
        return Stmt('setdiscr', parse_place(code[13:e]), ('const', code[e + 1:].strip(' =')), span, code)
    if code.startswith(('assume(', 'copy_nonoverlapping(', 'Deinit(', 'deinit(')):
        return None
    k = find_top(code, ' = ')
    if k < 0:
        raise ParseError('stmt: ' + code)
    dest, rhs = code[:k], code[k + 3:]
    a = -1
    # call or yield: ends with '-> [...]', '-> bbN' or '-> unwind ...'
    m = re.search(r' -> (\[return: .*\]|bb\d+|unwind [a-z]+(\([a-z]+\))?|unwind: bb\d+)$', rhs)
    if m:
        # choose the last top-level ' -> '
        p = 0
        pos = -1
        while True:
            q = find_top(rhs, ' -> ', p)
            if q < 0:
                break
            pos = q
            p = q + 4
        callee = rhs[:pos]
        t = parse_targets(rhs[pos + 4:])
        if callee.startswith('yield('):
            return Term('yield', (parse_place(dest), parse_operand(callee[6:-1]), bbn(t.get('resume') or t.get('return'))), span, code)
        i = agg_paren(callee)
        args = [parse_operand(x) for x in split_top(callee[i + 1:-1])]
        f = callee[:i]
        if f.startswith(('move ', 'copy ')) or re.match(r'_\d+$', f) or f.startswith('(*_') or re.match(r'\(+\*?_\d', f):
            fo = parse_operand(f)
        else:
            fo = ('fn', f)
        return Term('call', (parse_place(dest), fo, args, bbn(t.get('return'))), span, code)
    return Stmt('assign', parse_place(dest), parse_rvalue(rhs), span, code)


if __name__ == '__main__':
    import sys, collections
    for p in sys.argv[1:]:
        bs, al = parse_file(p, os.path.basename(p)[:-4])
        print(p, len(bs), 'bodies', len(al), 'allocs', sum(len(b.blocks) for b in bs), 'blocks',
              sum(1 for b in bs for bl in b.blocks if bl and bl[1] is None), 'blocks without terminator')
