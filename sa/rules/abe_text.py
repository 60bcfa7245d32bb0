"""C01-C04: the ab-text encoding (as_abtxt / parse_abtxt_*) and the expression parser."""
from check import rule
from dom import *
from rules.trans import *
from rules.util import *

TEXT = 'interpretation of MIR over byte-set partitions: exact outcome tables for inputs of known length, step relation of the cursor loop for any length'
HEX = b'0123456789abcdefABCDEF'
SIMPLE = {ord('n'): 10, ord('r'): 13, ord('t'): 9, ord(':'): 58, ord('\\'): 92, ord('/'): 47,
          ord('['): 91, ord(']'): 93, ord('0'): 0, ord('f'): 255}
CTR = b'/:[]\n'


def tok(w):
    """the documented grammar: (consumed, kind, byte) for the first token of w; kind 'byte' | 'ctr' | 'err' | 'end'"""
    if not w:
        return 0, 'end', None
    b = w[0]
    if b in CTR:
        return 1, ('err' if b == 10 else 'ctr'), b
    if b == 92:
        if len(w) < 2:
            return 0, 'err', None
        if w[1] == ord('x'):
            if len(w) >= 4 and w[2] in HEX and w[3] in HEX:
                return 4, 'byte', int(bytes(w[2:4]), 16)
            return 0, 'hexerr', None
        if w[1] in SIMPLE:
            return 2, 'byte', SIMPLE[w[1]]
        return 0, 'err', None
    if 0x20 <= b <= 0x7e:
        return 1, 'byte', b
    return 0, 'err', None


def decode(w):
    out, w = [], bytes(w)
    while w:
        k, kind, b = tok(w)
        if kind != 'byte':
            return None
        out.append(b)
        w = w[k:]
    return bytes(out)


def unwrap_cow(v):
    while v.op == 'adt' and len(v.a[2]) == 1 and v.a[0] in ('Cow', 'String', 'Vec'):
        v = v.a[2][0]
    return v


def enc_table(ctx):
    """E: byte -> text, from the encoder itself"""
    body, env = ctx.method('abe', 'abtxt::as_abtxt')
    qs, outs, I_ = table(ctx, body, env, 1)
    E, bad = {}, []
    for o in outs:
        for w in words(qs, o, range(256)):
            t = as_lit(inst(unwrap_cow(o.v), qs, w)) if o.kind == 'ret' else None
            if t is None or w[0] in E and E[w[0]] != t:
                bad.append(w[0])
            else:
                E[w[0]] = t
    return E, bad


def rng(bs):
    bs = sorted(bs)
    return ' '.join('%02x' % b for b in bs[:12]) + (' ...(%d)' % len(bs) if len(bs) > 12 else '')


def dec_result(o, qs, w):
    """(value bytes | None) of a parse outcome instantiated at w, or 'panic' / '?'"""
    if o.kind != 'ret':
        return 'panic'
    if is_adt(o.v, 'Err'):
        return None
    if is_adt(o.v, 'Ok'):
        b = as_lit(inst(o.v.a[2][0], qs, w))
        return '?' if b is None else b
    return '?'


def reps(*sets):
    return sorted(set(b''.join(bytes(s) for s in sets)))


# a representative alphabet: every class the grammar distinguishes, and the neighbours of each class border
ALPHA = reps(b'\\x0fntr:/[]', b'a9A', b'gG`@', b'+-', b' ~', bytes([0x1f, 0x7f, 0x80, 0xff, 0, 9, 10, 13]), b'!')


def lens(ctx):
    return (0, 1, 2, 3, 4) + ((5,) if ctx.thorough else ())


def cmp_table(ctx, key, qs, outs, alpha, want, got, where, cap=400000):
    """every word over alpha: the outcomes consistent with it give exactly the wanted result"""
    bad, n, seen = [], 0, 0
    for o in outs:
        for w in words(qs, o, alpha):
            n += 1
            if n > cap:
                break
            x, y = want(bytes(w)), got(o, qs, w)
            if y == x:
                seen += 1
            elif len(bad) < 3:
                bad.append('%r: expected %r, the code gives %r' % (bytes(w), x, y))
            else:
                bad.append('')
    ctx.ob(key, not bad, bad and '; '.join(x for x in bad if x) or '%d input classes, %d outcomes' % (seen, len(outs)), where)
    return seen


@rule('C01', level='proof', rule=TEXT + '; decoder o encoder = identity per byte and inductively per step')
def c01(ctx):
    E, bad = enc_table(ctx)
    ctx.ob('encode/every-byte', len(E) == 256 and not bad, 'bytes without one definite text: ' + rng(set(range(256)) - set(E) | set(bad)), 'as_abtxt')
    if len(E) != 256:
        return
    inv = {}
    for b, t in E.items():
        inv.setdefault(t, []).append(b)
    clash = [v for v in inv.values() if len(v) > 1]
    ctx.ob('encode/injective', not clash, 'bytes printed alike: %s' % [rng(v) for v in clash][:3], 'as_abtxt')
    bad = [b for b in range(256) if decode(E[b]) != bytes([b])]
    ctx.ob('encode/decodes-in-grammar', not bad, 'text of these bytes does not denote them: ' + rng(bad), 'as_abtxt')
    # encoder on two bytes: concatenation
    body, env = ctx.method('abe', 'abtxt::as_abtxt')
    al = ALPHA if not ctx.thorough else range(256)
    for n in (0, 2, 3):
        qs, outs, _ = table(ctx, body, env, n, alpha=(None if n < 3 else ALPHA[::2]))
        cmp_table(ctx, 'encode/concatenates/%d' % n, qs, outs, al if n < 3 else ALPHA[::2], lambda w: b''.join(E[b] for b in w),
                  lambda o, q, w: as_lit(inst(unwrap_cow(o.v), q, w)) if o.kind == 'ret' else 'panic', 'as_abtxt')
    enc_any(ctx, 'as_abtxt', body, env, E)
    enc_display(ctx, E)
    # decoders: the word E(b) yields exactly b
    for nm, path, rest, got in decoders(ctx):
        body, env = ctx.method('abe', path)
        for n in (1, 2, 4):
            ws = [E[b] for b in range(256) if len(E[b]) == n]
            if n == 2:
                ws += [E[a] + E[b] for a in range(256) for b in range(256) if len(E[a]) == len(E[b]) == 1]
            qs, outs, _ = table(ctx, body, env, n, alpha=set(b''.join(ws)) if ws else [65], rest=rest[1:], **(rest[0] or {}))
            ws = set(ws)
            bad, hit = [], set()
            for o in outs:
                for w in (ws if len(ws) < 4000 else words(qs, o, range(256))):
                    w = bytes(w)
                    if w not in ws or not consistent(o.st, dict(zip(qs, w))):
                        continue
                    hit.add(w)
                    g = got(o, qs, w)
                    if g != decode(w):
                        bad.append('%r -> %r' % (w, g))
            ctx.ob('decode/%s/len%d' % (nm, n), not bad and hit == ws, '; '.join(bad[:3]) or '%d of %d printed words decode to themselves' % (len(hit), len(ws)), path)
        dec_any(ctx, nm, body, env, rest, E)


def decoders(ctx):
    def d(o, qs, w):
        return dec_result(o, qs, w)

    def tree(o, qs, w):
        if o.kind != 'ret':
            return 'panic'
        if not is_adt(o.v, 'Ok'):
            return None
        v = inst(o.v.a[2][0], qs, w)
        t = abe_tree(v)
        if t == ():
            return b''
        return t[0][1] if t is not None and len(t) == 1 and t[0][0] == 'B' else t
    big = I(1 << 20)
    return [('parse_abtxt_upto_max', 'abtxt::parse_abtxt_upto_max', (None, big), d),
            ('parse_abe_strict_b', 'ast::parse_abe_strict_b', (None,), tree),
            ('parse_abe_with_unencoded_b', 'ast::parse_abe_with_unencoded_b', (None,), tree)]


def abe_tree(v):
    """python view of a Vec<ABE> term; None when not definite"""
    es = elems(v)
    if es is None:
        return None
    r = []
    for e in es:
        x = abe_node(e)
        if x is None:
            return None
        r.append(x)
    return tuple(r)


def abe_node(e):
    if is_adt(e, 'Ctr'):
        c = e.a[2][0]
        if is_adt(c, 'Colon'):
            return ('C', ':')
        if is_adt(c, 'FSlash'):
            return ('C', '/')
        return None
    if is_adt(e, 'Expr'):
        x = e.a[2][0]
        if is_adt(x, 'Bytes'):
            b = as_lit(x.a[2][0])
            return None if b is None else ('B', b)
        if is_adt(x, 'Lst'):
            t = abe_tree(x.a[2][0])
            return None if t is None else ('L', t)
    return None


def enc_any(ctx, nm, body, env, E):
    """an input of any length: the fast path is only taken for bytes that print as themselves, and the
    loop emits exactly E(byte) for each byte in order"""
    X = sym('X')
    I_ = ctx.interp()
    outs = [o for o in I_.run_body(body, env, [X], __import__('dom').State(), None) if not o.st.dead]
    ctx.ob('encode/%s/any/no-panic' % nm, all(o.kind == 'ret' for o in outs), '; '.join(show_path(o) for o in outs if o.kind != 'ret')[:300], nm)
    plain = sum(1 << b for b in range(256) if E[b] == bytes([b]))
    loops = cursor_loops(I_, X)
    if any(o.kind == 'ret' and unwrap_cow(o.v) is not X and not enc_hits(I_, loops, unwrap_cow(o.v)) for o in outs):
        enc_long(ctx, 'encode/' + nm, E, lambda w: [as_lit(unwrap_cow(o.v)) if o.kind == 'ret' else 'panic'
                                        for o in ctx.interp().run_body(body, env, [bseq(w)], State(), None) if not o.st.dead])
    for o in outs:
        if o.kind != 'ret':
            continue
        v = unwrap_cow(o.v)
        if v is X:
            m = o.st.byte_mask(X)
            ctx.ob('encode/%s/any/unchanged-only-if-plain' % nm, not (m & ~plain),
                   'input returned as is although it may contain: ' + rng(b for b in range(256) if (m & ~plain) >> b & 1), nm)
            continue
        hits = enc_hits(I_, loops, v)
        if not hits:
            ctx.notes.setdefault('inductive_part_not_applied', []).append('%s: %s' % (nm, show_path(o)))
            continue
        for L, var, ks, out in hits:
            bad = check_emit(L, var[2], ks, out, E)
            end = o.st.norm(length(var[2]))
            ctx.ob('encode/%s/any/step' % nm, not bad, '; '.join(bad[:3]) or '%d steps' % len(ks), L.where)
            ctx.ob('encode/%s/any/whole-input' % nm, end.op == 'i' and end.a[0] == 0, 'the result can be returned before the whole input is consumed', L.where)


def enc_hits(I_, loops, v):
    """the loops that write v from scratch, when every loop that has a part in v is one of them"""
    r = [(L, var, ks, out) for L, var, ks in loops for ov, out in appends(L) if v is ov[2] and ov[3] is not None and ov[3].op == 'seq' and not ov[3].a]
    own = set(id(L.H) for L, _, _, _ in r)
    for rec in I_.loops:
        if id(rec[2]) not in own and any(ph is v for _, _, ph in phis(rec[2])):
            return []
    return r


def enc_long(ctx, nm, E, run):
    """the encoder is not one loop over single bytes: long words, with one byte of each kind at each kind of position"""
    bad, n = [], 0
    for L, P in ((67, (0, 1, 2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 66)), (300, (0, 1, 127, 128, 129, 254, 255, 256, 257, 299)), (520, (1, 255, 256, 511, 513, 519))):
        for p in P:
            for x in (10, 58, 255, 92)[:4 if L == 67 else 2]:
                w = bytearray(97 + i % 23 for i in range(L))
                w[p] = x
                if L == 67:
                    w[(p * 7 + 3) % L] = 0
                n += 1
                t = run(bytes(w))
                if t != [b''.join(E[b] for b in w)]:
                    bad.append('%d bytes with %02x at %d: %r' % (L, x, p, [u if not isinstance(u, bytes) else u[max(0, p - 4):p + 8] for u in t][:2]))
    ctx.ob('%s/any/long' % nm, not bad, '; '.join(bad[:3]) or '%d long words' % n, nm)


def check_emit(L, p, ks, out, E):
    bad = []
    seen = set()
    for b, k, a in zip(L.back, ks, out):
        if k != 1:
            if k or a.a:
                bad.append('a step consumes %r bytes and emits %s' % (k, show(a)[:80]))
            continue
        for x in range(256):
            env = {index(p, I(0)): x}
            if not consistent(b, env):
                continue
            seen.add(x)
            t = as_lit(subst(a, {index(p, I(0)): I(x, 'u8')}))
            if t != E[x]:
                bad.append('byte %02x emits %r, alone it prints as %r' % (x, t, E[x]))
    if len(seen) < 256:
        bad.append('no step for bytes ' + rng(set(range(256)) - seen))
    return bad


def enc_display(ctx, E):
    """Display and Debug of an Expr::Bytes print the same text"""
    for tr in ('Display', 'Debug'):
        for ty, wrap_ in (('Expr', lambda v: adt('Expr', 'Bytes', v)), ('ABE', lambda v: adt('ABE', 'Expr', adt('Expr', 'Bytes', v)))):
            r = ctx.P.resolve('abe', '<ast::%s as std::fmt::%s>::fmt' % (ty, tr)) or ctx.P.resolve('abe', '<%s as %s>::fmt' % (ty, tr))
            if r is None:
                ctx.ob('encode/%s-%s' % (tr, ty), False, 'implementation not found')
                continue
            display_any(ctx, 'encode/%s-%s/any' % (tr, ty), r[0], r[1], wrap_, E)
            for n in (0, 1, 2):
                st = State()
                w = ref_cell(st, 'out', seq())
                qs, outs, _ = table(ctx, r[0], r[1], n, alpha=(None if n == 1 else ALPHA[::2]), rest=(w,), st=st, arg=wrap_)
                cmp_table(ctx, 'encode/%s-%s/%d' % (tr, ty, n), qs, outs, range(256) if n == 1 else ALPHA[::2], lambda w: b''.join(E[b] for b in w),
                          lambda o, q, w: as_lit(inst(o.st.cells[('rule', 'out')], q, w)) if o.kind == 'ret' else 'panic', r[0].name)


def display_any(ctx, key, body, env, wrap_, E):
    X = sym('X')
    st = State()
    w = ref_cell(st, 'out', seq())
    I_ = ctx.interp()
    outs = [o for o in I_.run_body(body, env, [wrap_(X), w], st, None) if not o.st.dead]
    ctx.ob(key + '/no-panic', all(o.kind == 'ret' for o in outs), '; '.join(show_path(o) for o in outs if o.kind != 'ret')[:300], body.name)
    loops = cursor_loops(I_, X)

    def run(x):
        st = State()
        w = ref_cell(st, 'out', seq())
        return [as_lit(o.st.cells[('rule', 'out')]) if o.kind == 'ret' else 'panic' for o in ctx.interp().run_body(body, env, [wrap_(bseq(x)), w], st, None) if not o.st.dead]
    ok = [o for o in outs if o.kind == 'ret' and is_adt(o.v, 'Ok')]
    if any(not enc_hits(I_, loops, o.st.cells[('rule', 'out')]) for o in ok):
        enc_long(ctx, key[:-4], E, run)
    for o in ok:
        v = o.st.cells[('rule', 'out')]
        hits = enc_hits(I_, loops, v)
        if not hits:
            ctx.notes.setdefault('inductive_part_not_applied', []).append('%s: %s' % (key, show(v)[:100]))
            continue
        for L, var, ks, out in hits:
            bad = check_emit(L, var[2], ks, out, E)
            ctx.ob(key + '/step', not bad, '; '.join(bad[:3]) or '%d steps' % len(ks), L.where)
            ctx.ob(key + '/whole-input', ends_at(o.st, var[2]), 'the text can be complete before the whole input is consumed', L.where)


def dec_any(ctx, nm, body, env, rest, E):
    """any length: in the cursor loop every printed word is consumed whole and yields its byte"""
    X = sym('X')
    I_ = ctx.interp()
    r = list(rest[1:])
    outs = [o for o in I_.run_body(body, env, [X] + r, State(), None) if not o.st.dead]
    loops = cursor_loops(I_, X)
    done = False
    for L, var, ks in loops:
        p = var[2]
        for ov, out in appends(L, True):
            if not any(a.op == 'seq' and a.a and a.a[0][0] in 'be' for a in out) or ov[3].a and ov[3].op == 'seq':
                continue
            if any(a is not RESET and elems(a) is None or any(not (e.op == 'i' or e.op in EVAL or e.op in ('idx', 'lin', 'cast')) for e in (elems(a) or ())) for a in out):
                continue
            done = True
            bad = []
            for b in range(256):
                w = E[b]
                hit = 0
                for n in (len(w), len(w) + 1, 4096):
                    e = env_of(p, w, n)
                    for s, k, a in zip(L.back, ks, out):
                        if not consistent(s, e):
                            continue
                        hit += 1
                        m = {index(p, I(j)): I(x, 'u8') for j, x in enumerate(w)}
                        t = as_lit(subst(a, m)) if a is not RESET else 'reset'
                        if k != len(w) or t != bytes([b]):
                            bad.append('%r: a step takes %r bytes and yields %r' % (w, k, t))
                if not hit:
                    bad.append('%r: no step accepts it' % w)
            ctx.ob('decode/%s/any/step' % nm, not bad, '; '.join(bad[:3]) or '256 words against %d steps' % len(ks), L.where)
    if not done:
        ctx.notes.setdefault('inductive_part_not_applied', []).append(nm)
        bad, n = [], 0
        got = dict((k, g) for k, _, _, g in decoders(ctx))[nm]
        for L, P in ((67, (0, 1, 7, 8, 31, 32, 63, 64, 66)), (300, (0, 127, 255, 256, 299)), (520, (255, 511, 519))):
            for p in P:
                for x in (10, 255)[:2 if L == 67 else 1]:
                    w = bytearray(97 + i % 23 for i in range(L))
                    w[p] = x
                    n += 1
                    t = b''.join(E[b] for b in w)
                    os_ = [o for o in ctx.interp().run_body(body, env, [bseq(t)] + r, State(), None) if not o.st.dead]
                    g = [got(o, (), ()) for o in os_]
                    if g != [bytes(w)]:
                        bad.append('%d bytes with %02x at %d -> %r' % (L, x, p, [u if not isinstance(u, bytes) else u[max(0, p - 4):p + 8] for u in g][:2]))
        ctx.ob('decode/%s/any/long' % nm, not bad, '; '.join(bad[:3]) or '%d long words' % n, nm)


# ---------------------------------------------------------------------------------------------- C02
@rule('C02', level='proof', rule=TEXT + '; every emitted text is printable ASCII and every reserved character in it is part of an escape')
def c02(ctx):
    E, bad = enc_table(ctx)
    ctx.ob('every-byte', len(E) == 256 and not bad, 'bytes without one definite text: ' + rng(set(range(256)) - set(E) | set(bad)), 'as_abtxt')
    if len(E) != 256:
        return
    ctx.ob('printable', not [b for b in E if any(not 0x20 <= c <= 0x7e for c in E[b]) or not E[b]], 'bytes printed with a non-printable or empty text: ' +
           rng(b for b in E if any(not 0x20 <= c <= 0x7e for c in E[b]) or not E[b]), 'as_abtxt')
    bare = []
    for b in E:
        t, i = E[b], 0
        while i < len(t):
            if t[i] == 92:
                i += 2
                continue
            if t[i] in b'[]:/':
                bare.append(b)
            i += 1
        if i > len(t):
            bare.append(b)
    ctx.ob('reserved-escaped', not bare, 'bytes whose text holds an unescaped reserved character or a dangling backslash: ' + rng(bare), 'as_abtxt')
    body, env = ctx.method('abe', 'abtxt::as_abtxt')
    enc_any(ctx, 'as_abtxt', body, env, E)
    qs, outs, _ = table(ctx, body, env, 2)
    cmp_table(ctx, 'concatenates/2', qs, outs, ALPHA, lambda w: b''.join(E[b] for b in w),
              lambda o, q, w: as_lit(inst(unwrap_cow(o.v), q, w)) if o.kind == 'ret' else 'panic', 'as_abtxt')
    enc_display(ctx, E)
    # the advertised predicate agrees with the encoder
    r = ctx.P.resolve('abe', 'abtxt::escaped_byte')
    if r:
        q = sym('q0')
        U8.add(q)
        bad = []
        for o in ctx.interp(table=True).run_body(r[0], r[1], [q], State(), None):
            for b in range(256):
                if consistent(o.st, {q: b}):
                    v = subst(o.v, {q: I(b, 'u8')}) if o.kind == 'ret' else None
                    if v is None or v.op != 'i' or bool(v.a[0]) != (len(E[b]) > 1):
                        bad.append(b)
        ctx.ob('escaped_byte', not bad, 'disagrees with the encoder for ' + rng(bad), 'escaped_byte')
    for nm in ('escape_default',):
        r = ctx.P.resolve('abe', 'abtxt::' + nm)
        if r:
            q = sym('q0')
            U8.add(q)
            bad = []
            for o in ctx.interp(table=True).run_body(r[0], r[1], [q], State(), None):
                for b in range(256):
                    if consistent(o.st, {q: b}) and (o.kind != 'ret' or as_lit(subst(o.v, {q: I(b, 'u8')})) != E[b]):
                        bad.append(b)
            ctx.ob(nm, not bad, 'disagrees with the encoder for ' + rng(bad), nm)


# ---------------------------------------------------------------------------------------------- C03
def grammar_words():
    ws = [bytes([b]) for b in range(256)]
    ws += [b'\\' + bytes([b]) for b in range(256)]
    hx = HEX + b'/:@`gG xX+-_.\\\x00\xff'
    ws += [b'\\x' + bytes([b]) for b in sorted(set(hx))]
    ws += [b'\\x' + bytes([a, b]) for a in sorted(set(hx)) for b in sorted(set(hx))]
    return ws


def steps_match(ctx, key, I_, outs, X, spec, where):
    """in the cursor loop: for each first token (any tail) the possible steps are exactly the specified one.
    spec(w) -> (k, bytes) | 'fail' | 'ctr'"""
    done = False
    for L, var, ks in cursor_loops(I_, X):
        p = var[2]
        for ov, out in appends(L, True):
            if ov[3] is None or ov[3].op != 'seq' or ov[3].a:
                continue
            if any(a is not RESET and elems(a) is None or any(not (e.op == 'i' or e.op in EVAL or e.op in ('idx', 'lin', 'cast')) for e in (elems(a) or ())) for a in out):
                continue
            done, bad, n = True, [], 0
            for w in grammar_words():
                for ln in sorted({len(w), len(w) + 1, 4096}):
                    if ln > len(w) and (w == b'\\' or w[:2] == b'\\x' and len(w) < 4):
                        continue        # not a whole token
                    full = w + b'zz' if ln > len(w) else w
                    sp = spec(full)
                    if sp == 'more' or (sp != 'fail' and sp != 'ctr' and sp[0] > len(w)):
                        continue
                    if sp == 'fail' and ln > len(w) and spec(w) != 'fail':
                        continue
                    e = env_of(p, w, ln)
                    st_ = [(k, a, s) for s, k, a in zip(L.back, ks, out) if consistent(s, e)]
                    n += 1
                    m = {index(p, I(j)): I(x, 'u8') for j, x in enumerate(w)}
                    if sp == 'fail':
                        if st_:
                            bad.append('%r (len %d) is accepted: takes %r' % (w, ln, st_[0][0]))
                    elif sp == 'ctr':
                        if any(k != 1 for k, a, s in st_):
                            bad.append('%r is consumed as %r bytes' % (w, st_[0][0]))
                        if any(a is not RESET and a.a for k, a, s in st_):
                            bad.append('%r is taken as text' % w)
                    else:
                        if not st_:
                            bad.append('%r (len %d) is not accepted' % (w, ln))
                        for k, a, s in st_:
                            if k != sp[0] or a is RESET or as_lit(subst(a, m)) != sp[1]:
                                bad.append('%r: takes %r bytes and yields %r' % (w, k, 'reset' if a is RESET else as_lit(subst(a, m))))
            ctx.ob(key + '/step', not bad, '; '.join(bad[:3]) or '%d token/length cases against %d steps' % (n, len(ks)), L.where)
            # success only at the end of the input
            bad = []
            for o in outs:
                if o.kind == 'ret' and is_adt(o.v, 'Ok'):
                    if not ends_at(o.st, p):
                        bad.append(show_path(o))
            ctx.ob(key + '/whole-input', not bad, 'success is possible before the whole input is consumed: %s' % '; '.join(bad)[:200], L.where)
    if not done:
        ctx.notes.setdefault('inductive_part_not_applied', []).append(key)
    return done


def ends_at(st, p):
    n = st.norm(length(p))
    return n.op == 'i' and n.a[0] == 0


def spec_strict(w):
    k, kind, b = tok(w)
    return (k, bytes([b])) if kind == 'byte' else 'ctr' if kind == 'ctr' else 'fail'


def spec_loose(w):
    k, kind, b = tok(w)
    if kind == 'byte':
        return (k, bytes([b]))
    if kind == 'ctr':
        return 'ctr'
    return 'fail' if kind == 'hexerr' else (1, w[:1])


def limit_long(ctx, body, env):
    bad, n = [], 0
    for m in (3, 7, 8, 31, 32, 63, 64, 65, 255, 256, 257):
        for k in (m - 1, m, m + 1, 2 * m):
            for t in (b'a' * k, b'\\n' * k, b'\\xff' + b'a' * (k - 1)):
                w = decode(t)
                outs = [o for o in ctx.interp().run_body(body, env, [bseq(t), I(m)], State(), None) if not o.st.dead]
                n += 1
                g = [dec_result(o, (), ()) for o in outs]
                if g != [w if len(w) <= m else None]:
                    bad.append('%d bytes, limit %d: %r' % (len(w), m, [x if not isinstance(x, bytes) else len(x) for x in g]))
    ctx.ob('upto_max/any/limit', not bad, '; '.join(bad[:3]) or '%d long texts' % n, body.name)


def spec_txt(w):
    k, kind, b = tok(w)
    return (k, bytes([b])) if kind == 'byte' else 'fail'


@rule('C03', level='proof', rule=TEXT + '; decoder language and value compared with the documented grammar, length counter inductive')
def c03(ctx):
    body, env = ctx.method('abe', 'abtxt::parse_abtxt_upto_max')
    big = I(1 << 20)
    for n in range(0, 5 if ctx.thorough else 4):
        qs, outs, _ = table(ctx, body, env, n, rest=(big,), alpha=None if n < 4 else ALPHA)
        cmp_table(ctx, 'upto_max/grammar/%d' % n, qs, outs, range(256) if n < 2 else ALPHA if n < 4 else ALPHA[::2], decode, dec_result, 'parse_abtxt_upto_max')
    # hex escapes: every class of both digits, alone and followed by another byte
    hx = reps(b'09afAF', b'/:@`gG', b'+-_. xX\\', bytes([0, 0x7f, 0x80, 0xff]))
    for n, tail in ((4, b''), (5, b'a')) if ctx.thorough else ((4, b''),):
        st = State()
        qs = [sym('q%d' % i) for i in range(n)]
        for q, al in zip(qs, [b'\\', b'x', hx, hx, tail]):
            U8.add(q)
            st.facts[q] = ('dom', sum(1 << a for a in set(al)))
        outs = [o for o in ctx.interp(part=40000, unroll_width=20000, recursion=12, table=True).run_body(body, env, [eseq(qs), big], st, None) if not o.st.dead]
        cmp_table(ctx, 'upto_max/hex/%d' % n, qs, outs, reps(b'\\x', hx, tail), decode, dec_result, 'parse_abtxt_upto_max')
    for m in (0, 1, 2):
        for n in (0, 1, 2, 3):
            qs, outs, _ = table(ctx, body, env, n, rest=(I(m),), alpha=b'\\xn0afz/\x07\xff~[')

            def lim(w):
                d = decode(w)
                return None if d is None or len(d) > m else d
            cmp_table(ctx, 'upto_max/limit%d/%d' % (m, n), qs, outs, b'\\xn0afz/\x07\xff~[', lim, dec_result, 'parse_abtxt_upto_max')
    # any length, any limit
    X, mx = sym('X'), sym('max')
    I_ = ctx.interp()
    outs = [o for o in I_.run_body(body, env, [X, mx], State(), None) if not o.st.dead]
    ctx.ob('upto_max/any/no-panic', all(o.kind == 'ret' for o in outs), '; '.join(show_path(o) for o in outs if o.kind != 'ret')[:300], 'parse_abtxt_upto_max')
    steps_match(ctx, 'upto_max/any', I_, outs, X, spec_txt, 'parse_abtxt_upto_max')
    for L, var, ks in cursor_loops(I_, X):
        for ov, out in appends(L):
            cs = [v for v in L.vars if v[3] is not None and v[3].op == 'i' and v[3].a[0] == 0 and
                  all(b is not None and (sub(b, v[2]) is length(a) or same_int(sub(b, v[2]), length(a))) for b, a in zip(v[4], out))]
            ok_ = any(all(not a.a or s.decide(lt(v[2], mx)) is TRUE or dec_true(s, lt(v[2], mx)) for s, a in zip(L.back, out)) for v in cs)
            direct = all(not a.a or dec_true(s, lt(length(ov[2]), mx)) for s, a in zip(L.back, out))
            down = [v for v in L.vars if v[3] is mx and all(b is not None and (sub(v[2], b) is length(a) or same_int(sub(v[2], b), length(a))) for b, a in zip(v[4], out))]
            ok_ = ok_ or any(all(not a.a or dec_true(s, lt(I(0, 'usize'), v[2])) or s.decide(eq(v[2], I(0, 'usize'))) is False for s, a in zip(L.back, out)) for v in down)
            if ok_ or direct:
                ctx.ob('upto_max/any/limit', True, 'each step that adds a byte has checked the limit', L.where)
            else:
                ctx.notes.setdefault('inductive_part_not_applied', []).append('upto_max/any/limit: no counter of the bytes so far was recognised')
                limit_long(ctx, body, env)
    # into a fixed destination
    body, env = ctx.method('abe', 'abtxt::parse_abtxt_into')
    al = b'\\xn0afz/\x07\xff~['
    for size in (0, 1, 2, 3):
        for n in (0, 1, 2, 3):
            st = State()
            ds = symseq('d', size)
            for d in ds:
                U8.add(d)
            r = ref_cell(st, 'dest', eseq(ds))
            qs, outs, _ = table(ctx, body, env, n, rest=(r,), st=st, alpha=al)

            def want(w):
                d = decode(w)
                if d is None or len(d) > size:
                    return None
                return (len(d), d)

            def got(o, q, w):
                if o.kind != 'ret':
                    return 'panic'
                if is_adt(o.v, 'Err'):
                    return None
                k = inst(o.v.a[2][0], q, w)
                c = inst(o.st.cells[('rule', 'dest')], q, w)
                if k.op != 'i':
                    return '?'
                if is_adt(c) and c.a[0] == 'SliceW':
                    base, wr = c.a[2]
                    return (k.a[0], as_lit(wr))
                es = elems(c)
                if es is None or es[k.a[0]:] != ds[k.a[0]:]:
                    return 'tail changed'
                return (k.a[0], as_lit(eseq(es[:k.a[0]])))
            cmp_table(ctx, 'into/%d/%d' % (size, n), qs, outs, al, want, got, 'parse_abtxt_into')
    D = sym('D')
    st = State()
    r = ref_cell(st, 'dest', D)
    I_ = ctx.interp()
    outs = [o for o in I_.run_body(body, env, [X, r], st, None) if not o.st.dead]
    ctx.ob('into/any/no-panic', all(o.kind == 'ret' for o in outs), '; '.join(show_path(o) for o in outs if o.kind != 'ret')[:300], 'parse_abtxt_into')
    steps_match(ctx, 'into/any', I_, outs, X, spec_txt, 'parse_abtxt_into')


def same_int(a, b):
    return a.op == 'i' and b.op == 'i' and a.a[0] == b.a[0]


def dec_true(st, t):
    d = st.decide(t)
    return d is True or isinstance(d, T) and d.op == 'i' and d.a[0] == 1 or (st.norm(t).op == 'i' and st.norm(t).a[0] == 1)


def dec_false(st, t):
    d = st.decide(t)
    if d is False or isinstance(d, T) and d.op == 'i' and d.a[0] == 0:
        return True
    n = st.norm(t)
    return n.op == 'i' and n.a[0] == 0


# ---------------------------------------------------------------------------------------------- C04
class Bad(Exception):
    pass


def tokens(w, loose):
    r, w = [], bytes(w)
    while w:
        k, kind, b = tok(w)
        if kind == 'byte':
            r.append(b)
        elif kind == 'ctr':
            r.append(chr(b))
        elif loose and kind == 'err':
            k = 1
            r.append(w[0])
        else:
            raise Bad()
        w = w[k:]
    return r


def tree_of(w, loose):
    """the documented reading of an expression text: None when it must be rejected"""
    try:
        ts = tokens(w, loose)
    except Bad:
        return None
    stack = [[]]
    for t in ts:
        if isinstance(t, int):
            top = stack[-1]
            if top and top[-1][0] == 'B':
                top[-1] = ('B', top[-1][1] + bytes([t]))
            else:
                top.append(('B', bytes([t])))
        elif t == '[':
            stack.append([])
        elif t == ']':
            if len(stack) == 1:
                return None
            l = tuple(stack.pop())
            stack[-1].append(('L', l))
        else:
            stack[-1].append(('C', t))
    return tuple(stack[0]) if len(stack) == 1 else None


def got_tree(o, qs, w):
    if o.kind != 'ret':
        return 'panic'
    if is_adt(o.v, 'Err'):
        return None
    t = abe_tree(inst(o.v.a[2][0], qs, w))
    return '?' if t is None else t


AST = b'[]:/a'


def comps(w):
    """top-level components of an expression text: [(delimiter before, has brackets, text)] or None"""
    depth, i, start, head, inner, r = 0, 0, 0, 0, False, []
    w = bytes(w)
    while i < len(w):
        b = w[i]
        k, kind, _ = tok(w[i:]) if b != 10 else (1, 'ctr', 10)
        if kind in ('err', 'hexerr'):
            return None
        if kind == 'ctr':
            if depth == 0 and b not in b'[]':
                r.append((head, inner, w[start:i]))
                head, inner, start = b, False, i + 1
            else:
                inner = True
                if b == 91:
                    depth += 1
                elif b == 93:
                    if not depth:
                        return None
                    depth -= 1
        i += k
    if depth:
        return None
    r.append((head, inner, w[start:]))
    return r


@rule('C04', level='proof', rule=TEXT + '; accepted texts and resulting trees compared with the documented reading; bracket depth inductive')
def c04(ctx):
    for nm, path, loose in (('strict', 'ast::parse_abe_strict_b', False), ('unencoded', 'ast::parse_abe_with_unencoded_b', True)):
        body, env = ctx.method('abe', path)
        for n in range(0, 6):
            al = AST if n > 3 else AST + b'\\nx\x07'
            qs, outs, _ = table(ctx, body, env, n, alpha=al)
            cmp_table(ctx, '%s/tree/%d' % (nm, n), qs, outs, al, lambda w: tree_of(w, loose), got_tree, path)
        X = sym('X')
        I_ = ctx.interp()
        outs = [o for o in I_.run_body(body, env, [X], State(), None) if not o.st.dead]
        steps_match(ctx, nm + '/any', I_, outs, X, spec_loose if loose else spec_strict, path)
        depth_rule(ctx, nm, I_, outs, X, path)
    for path in ('ast::parse_abe_b', 'ast::parse_abe'):
        r = ctx.P.resolve('abe', path)
        if r is None:
            continue
        for flag, loose in ((TRUE, True), (FALSE, False)):
            qs, outs, _ = table(ctx, r[0], r[1], 2, alpha=b'[]a\\\x07', rest=(flag,))
            cmp_table(ctx, '%s/%s' % (path, 'unencoded' if loose else 'strict'), qs, outs, b'[]a\\\x07', lambda w: tree_of(w, loose), got_tree, path)
    # the component splitter agrees
    body, env = ctx.method('abe', 'ast::tokenize_abe')
    z = I(0, 'u32')
    al = b'[]:/\na\\'
    for n in range(0, 5):
        qs, outs, _ = table(ctx, body, env, n, alpha=al, rest=(z, z))

        def want(w):
            c = comps(w)
            if c is not None and len(c) > 0 and not c[-1][2]:
                c = c[:-1]          # a trailing empty component is not reported
            return c

        def got(o, q, w):
            if o.kind != 'ret':
                return 'panic'
            if is_adt(o.v, 'Err'):
                return None
            es = elems(o.v.a[2][0])
            if es is None:
                return '?'
            r = []
            for e in es:
                c, i, s = [inst(x, q, w) for x in e.a]
                s = as_lit(s)
                if c.op != 'i' or i.op != 'i' or s is None:
                    return '?'
                r.append((c.a[0], bool(i.a[0]), s))
            return r
        cmp_table(ctx, 'components/%d' % n, qs, outs, al, want, got, 'ast::tokenize_abe')
    printed_trees(ctx)


def depth_rule(ctx, nm, I_, outs, X, where):
    done = False
    for L, var, ks in cursor_loops(I_, X):
        p = var[2]
        for v in L.vars:
            c, pa, ph, e, bs = v
            if e is None or e.op != 'i' or e.a[0] != 0 or any(b is None for b in bs):
                continue
            narrow, bs = set(), list(bs)
            for i, b in enumerate(bs):
                # wrapping or saturating steps are exact as long as the counter cannot reach its end
                if b.op in ('wrap', 'saturating_add', 'saturating_sub'):
                    ty = b.a[-1]
                    if MASK.get(ty, 0) < 32:
                        narrow.add(ty)
                    bs[i] = b.a[0] if b.op == 'wrap' else (add if b.op == 'saturating_add' else sub)(b.a[0], b.a[1])
            ds = [sub(b, ph) for b in bs]
            if any(d.op != 'i' for d in ds) or not any(d.a[0] == 1 for d in ds) or not any(d.a[0] == -1 for d in ds):
                continue
            done, bad = True, ['the depth is counted in %s without a check for its end' % t for t in sorted(narrow)]
            for s, k, d in zip(L.back, ks, ds):
                for b in range(256):
                    if not consistent(s, {index(p, I(0)): b}):
                        continue
                    want = {91: 1, 93: -1}.get(b, 0)
                    if d.a[0] != want:
                        bad.append('byte %r changes the depth by %d' % (bytes([b]), d.a[0]))
                    if b == 93 and not dec_false(s, eq(ph, I(0, e.a[1]))):
                        bad.append('a closing bracket is taken without a check that one is open')
            ctx.ob(nm + '/any/depth-step', not bad, '; '.join(sorted(set(bad))[:3]) or '%d steps' % len(ds), L.where)
            bad = []
            for o in outs:
                if o.kind == 'ret' and is_adt(o.v, 'Ok'):
                    n = o.st.norm(ph)
                    if not (n.op == 'i' and n.a[0] == 0) and not dec_true(o.st, eq(ph, I(0, e.a[1]))):
                        bad.append(show_path(o))
            ctx.ob(nm + '/any/balanced', not bad, 'a text with open brackets can be accepted: ' + '; '.join(bad)[:200], L.where)
    if not done:
        ctx.notes.setdefault('inductive_part_not_applied', []).append(nm + ' depth')


def tree_term(t):
    def node(x):
        if x[0] == 'C':
            return adt('ABE', 'Ctr', adt('Ctr', 'Colon' if x[1] == ':' else 'FSlash'))
        if x[0] == 'B':
            return adt('ABE', 'Expr', adt('Expr', 'Bytes', bseq(x[1])))
        return adt('ABE', 'Expr', adt('Expr', 'Lst', eseq([node(y) for y in x[1]])))
    return eseq([node(x) for x in t])


def printed_trees(ctx):
    """printing a parsed expression gives a text with the same reading"""
    body, env = ctx.method('abe', 'ast::print_abe')
    import itertools
    seen, bad = set(), []
    for n in range(0, 5 if ctx.thorough else 5):
        for w in itertools.product(AST, repeat=n):
            t = tree_of(bytes(w), False)
            if t is not None:
                seen.add(t)
    for x in (b'\\:', b'\\[\\]', b'\\n\\x01', b'a\\\\[b:\\/]', b'[[a]:[\\x80/]]'):
        seen.add(tree_of(x, False))
    for t in sorted(seen, key=repr):
        I_ = ctx.interp(part=4000, unroll_width=2000, recursion=12, table=True)
        outs = [o for o in I_.run_body(body, env, [tree_term(t)], State(), None) if not o.st.dead]
        s = as_lit(outs[0].v) if len(outs) == 1 and outs[0].kind == 'ret' else None
        if s is None or tree_of(s, False) != t:
            bad.append('%r prints as %r' % (t, s))
    ctx.ob('print/same-reading', not bad, '; '.join(bad[:3]) or '%d trees' % len(seen), 'ast::print_abe')
