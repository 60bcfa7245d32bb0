"""identity & hashing: C14-C20"""
from check import rule, Missing
from rules.util import *
from dom import *

CR = 'linkspace_cryptography'
AR = 'linkspace_argon2_identity'

VERIFY = r'(^|:)(verify_prehash|verify_raw)$'


def key_of(k):
    return app('fld', k, None, 0)


# --------------------------------------------------------------------- C14
@rule('C14', level='proof', rule='path-sensitive must-analysis of the validator: every outcome that can be success carries the fact that the '
      'Schnorr verification primitive succeeded on (decoded public key, caller hash, decoded signature); the signer feeds the same primitive family '
      'with its own key and the caller hash; the advertised public key is the verifying key of the signing key',
      trusted=['k256 schnorr: sign_prehash_with_aux_rand / verify_prehash are a correct signature scheme'])
def c14(cx):
    b = cx.fn(CR, 'validate_signature', 3)
    names = {v: n for n, v in b.debug}
    pk, sg, h = sym('pubkey'), sym('signature'), sym('hash')
    # positions by type: the 64-byte argument is the signature; pubkey precedes hash
    args = roles(b)
    if sorted(args) != ['hash', 'pubkey', 'signature']:
        raise Missing('validate_signature(pubkey, signature, hash)')
    m = {'pubkey': pk, 'signature': sg, 'hash': h}
    I, outs = cx.run(b, [m[a] for a in args])

    def is_verify(t):
        if not is_call(t, VERIFY) or len(t.a) != 3:
            return False
        vk, hh, s = t.a
        k = payload(vk, 'Ok')
        s0 = payload(s, 'Ok')
        return (hh is h and k is not None and is_call(k, r'VerifyingKey.*(from_bytes|try_from)|try_from:VerifyingKey') and k.a[-1] is pk
                and s0 is not None and is_call(s0, r'(from_bytes|try_from).*Signature|Signature.*(from_bytes|try_from)') and s0.a[-1] is sg)
    n_ok = n_err = 0
    for o in outs:
        if o.kind != 'ret':
            cx.ob('validate/panic', False, 'validation can panic: %s' % show_path(o), 'validate_signature')
            continue
        v = o.v
        f = ok_facts(o.st)
        good = [t for t, n in f.items() if n == 0 and is_verify(t)]
        if is_adt(v, 'Err'):
            n_err += 1
            why = [t for t, n in f.items() if n == 1]
            cx.ob('validate/reject-has-reason', bool(why) and all(
                is_verify(t) or is_call(t, r'from_bytes|try_from') for t in why), 'rejection not caused by a failed decode or verification', 'validate_signature')
        elif is_adt(v, 'Ok'):
            n_ok += 1
            cx.ob('validate/accept-is-verified', bool(good), 'accepting outcome without a successful verification of (pubkey, hash, signature); facts: %s' % list(f)[:3],
                  'validate_signature')
        else:
            n_ok += 1
            n_err += 1
            cx.ob('validate/accept-is-verified', is_verify(v) or bool(good), 'result is %s' % show(v)[:200], 'validate_signature')
    cx.floor('accepting outcomes', n_ok, 1)
    cx.floor('rejecting outcomes', n_err, 1)
    # signer
    b = cx.fn(CR, 'sign_hash', 2)
    k, h = sym('key'), sym('hash')
    I, outs = cx.run(b, [k, h])
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        n += 1
        sg = calls(o.v, r'(^|:)(sign_prehash\w*|sign_raw)$')
        okk = len(sg) == 1 and sg[0].a[0] is key_of(k) and sg[0].a[1] is h
        cx.ob('sign/own-key-and-hash', okk, 'signature is %s' % show(o.v)[:200], 'sign_hash')
        w = o.v
        cx.ob('sign/whole-signature', is_call(w, r'Signature:(to_bytes|to_vec|into)$|into') and payload(w.a[0], 'Ok') is (sg[0] if sg else None),
              'returned bytes are %s' % show(w)[:160], 'sign_hash')
    cx.floor('signing outcomes', n, 1)
    pubkey_is_verifying(cx, CR)
    b, env = cx.method(CR, 'SigningKey::try_from')
    s = sym('secret')
    I, outs = cx.run(b, [s], env)
    for o in outs:
        src = ok_facts(o.st)
        fb = [t for t in src if is_call(t, r'SigningKey.*from_bytes$') and t.a[0] is s]
        cx.ob('key-from-secret', o.kind == 'ret' and len(fb) == 1 and len(src) == 1 and (
            is_adt(o.v, 'Err') and src[fb[0]] == 1 or is_adt(o.v, 'Ok') and src[fb[0]] == 0 and
            o.v.a[2][0] is adt('SigningKey', '', app('fld', fb[0], 'Ok', 0)) or
            is_adt(o.v, 'Ok') and src[fb[0]] == 0 and payload(o.v.a[2][0].a[2][0], 'Ok') is fb[0]),
            'SigningKey::try_from yields %s' % show_path(o), 'SigningKey::try_from')


def roles(b):
    """parameter roles of validate_signature from the debug names / types"""
    nm = {}
    for n, pl in b.debug:
        nm[pl] = n
    r = []
    for a, ty in b.args:
        n = nm.get(a, nm.get('_' + str(a), ''))
        t = str(ty)
        if 'Signature' in t or '; 64]' in t:
            r.append('signature')
        elif 'pubkey' in n.lower() or 'pub' in n.lower() or 'PublicKey' in t:
            r.append('pubkey')
        else:
            r.append('hash')
    if r.count('pubkey') != 1 and 'signature' in r:
        r = ['pubkey', 'signature', 'hash'] if r.index('signature') == 1 else r
    return r


def pubkey_is_verifying(cx, crate):
    b, env = cx.method(crate, 'SigningKey::pubkey_bytes')
    k = sym('key')
    I, outs = cx.run(b, [k], env)
    for o in outs:
        v = o.v
        cx.ob('pubkey/verifying-key', o.kind == 'ret' and is_call(v, r'VerifyingKey:to_bytes$|to_bytes$|into') and
              is_call(v.a[0], r'SigningKey:(verifying_key|as_ref)$') and v.a[0].a[0] is key_of(k),
              'pubkey_bytes is %s' % show_path(o), 'SigningKey::pubkey_bytes')


# --------------------------------------------------------------------- C15
OPAQUE_ERR = r'sign_prehash\w*$|SigningKey:from_bytes$'     # signature::Error: no content
SECRET_FREE = r'verifying_key$|pubkey_bytes$'


def leaks(t, secret):
    """does t depend on secret other than through the verifying key?"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x is secret:
            return True
        if is_call(x, SECRET_FREE):
            continue
        if x.op == 'BitXor' and any(y.op == 'argon' or y.op == 'idx' and y.a[0].op == 'argon' for y in x.a if isinstance(y, T)):
            continue            # masked by the password hash
        if x.op == 'fld' and x.a[1] == 'Err' and is_call(x.a[0], OPAQUE_ERR):
            continue
        if x.op == 'seq':
            st += [v for k, v in x.a if k != 'b']
        elif x.op == 'lin':
            st += [v for v, _ in x.a[1]]
        elif x.op == 'adt':
            st += list(x.a[2])
        elif x.op == 'clo':
            st += list(x.a[1])
        else:
            for y in x.a:
                if isinstance(y, T):
                    st.append(y)
                elif isinstance(y, tuple):
                    st += [z for z in y if isinstance(z, T)]
    return False


FMT_SINK = re.compile(r'(^|:)(new_display|new_debug|new_lower_hex|new_upper_hex|_print|_eprint|write_all|log|debug_\w+|field|entry|write_str|write_fmt|pad)$')


class SinkHook:
    def __init__(self, secrets, found):
        self.secrets, self.found, self.sites = secrets, found, 0

    def on_call(self, I, fr, st, info, args, site):
        m = info.method or ''
        if FMT_SINK.search(m):
            self.sites += 1
            for a in args:
                c = I.content(st, a)
                for s in self.secrets:
                    if leaks(c, s):
                        self.found.append('%s passes the secret to %s' % (fr.body.name, m))
        return None


@rule('C15', level='proof', rule='information-flow (term dependency) analysis: the formatted rendering of a secret key, every formatting/printing sink '
      'reached from the identity entry points, and every returned error depend on the secret or password only through the public verifying key or an XOR with the '
      'password hash', trusted=['verifying_key / schnorr point multiplication does not reveal the scalar'])
def c15(cx):
    k = sym('key')
    n = 0
    for trait in ('Debug', 'Display', 'LowerHex', 'UpperHex'):
        r = cx.P.resolve(CR, '<SigningKey as %s>::fmt' % trait)
        if r is None:
            continue
        n += 1
        b, env = r
        I = cx.interp()
        st = State()
        f = ref_cell(st, 'out', EMPTY)
        outs = I.run_body(b, env, [k, f], st, None)
        cx.floor('outcomes of %s' % trait, len(outs), 1)
        for o in outs:
            buf = I.content(o.st, f)
            cx.ob('render/%s' % trait, not leaks(buf, k), 'the rendering depends on the secret: %s' % show(buf)[:200], '<SigningKey as %s>::fmt' % trait)
        bufs = {repr(I.content(o.st, f)) for o in outs}
        dec = sorted({show(t) for o in outs for t in o.st.facts if leaks(t, k)}) if len(bufs) > 1 else []
        cx.ob('render/%s/choice' % trait, not dec, 'which text is rendered depends on the secret: %s' % '; '.join(dec)[:200], '<SigningKey as %s>::fmt' % trait)
    cx.floor('renderings of a secret key', n, 1)
    pk = sym('pk')
    for crate, fname, args, secrets in (
            (CR, 'sign_hash', [sym('key'), sym('hash')], ['key']),
            (CR, 'public_testkey', [], []),
            (AR, 'encrypt', [sym('key'), sym('pw'), some(sym('cost'))], ['key', 'pw']),
            (AR, 'decrypt', [sym('enc'), sym('pw')], ['pw', 'SECRET']),
            (AR, 'pubkey', [sym('enc')], [])):
        b = cx.fn(crate, fname)
        found = []
        S = [sym(s) for s in secrets]
        ext = argon_externs() if crate == AR else {}
        I = cx.interp(extern=ext)
        I.hooks.append(SinkHook(S, found))
        outs = I.run_body(b, {}, args, State(), None)
        cx.ob('sinks/%s' % fname, not found, '; '.join(sorted(set(found)))[:300], fname)
        for o in outs:
            if o.kind == 'ret' and is_adt(o.v, 'Err'):
                cx.ob('errors/%s' % fname, not any(leaks(o.v, s) for s in S), 'error value carries secret data: %s' % show(o.v)[:160], fname)
            if fname == 'encrypt' and o.kind == 'ret':
                bad = enc_leak(o.v)
                cx.ob('encrypt/masked', not bad, bad, fname)
    # no environment or file output
    cx.notes['sink_pattern'] = FMT_SINK.pattern


def enc_leak(v):
    """every occurrence of the secret key bytes or password in the identity string is under an XOR with an argon hash byte"""
    key = sym('key')
    bad = []

    def walk(t, ok_):
        if not isinstance(t, T):
            return
        if t.op == 'sk' and not ok_:
            bad.append('secret key byte appears unmasked')
        if t is sym('pw') and not ok_:
            bad.append('password appears in the identity string')
        if t.op == 'pkb':
            return
        if t.op == 'BitXor':
            m = any(x.op == 'argon' or x.op == 'idx' and x.a[0].op == 'argon' for x in t.a if isinstance(x, T))
            for x in t.a:
                walk(x, ok_ or m)
            return
        if t.op == 'argon' and not ok_:
            bad.append('raw password hash appears unmasked')
        if t.op == 'seq':
            for k2, x in t.a:
                if k2 != 'b':
                    walk(x, ok_)
        elif t.op == 'adt':
            for x in t.a[2]:
                walk(x, ok_)
        elif t.op == 'lin':
            for x, _ in t.a[1]:
                walk(x, ok_)
        else:
            for x in t.a:
                walk(x, ok_)
    walk(v, False)
    return '; '.join(sorted(set(bad)))


# --------------------------------------------------------------------- C16
def hasher_externs():
    def new(I, fr, st, info, args, site):
        return I.ret(st, EMPTY)

    def upd(I, fr, st, info, args, site):
        r = args[0]
        while I.get(st, r.a[0], r.a[1]).op == 'ref':
            r = I.get(st, r.a[0], r.a[1])
        cur = I.get(st, r.a[0], r.a[1])
        I.put(st, r.a[0], r.a[1], concat(cur, I.content(st, args[1])))
        return I.ret(st, args[0])

    def fin(I, fr, st, info, args, site):
        return I.ret(st, app('blake3', I.content(st, args[0])))
    r = {}
    for n in ('Hasher:new', 'Hasher:Default:default'):
        r[n] = new
    for n in ('Hasher:update', 'Hasher:update_rayon', 'Hasher:Write:write_all', 'Hasher:Digest:update', 'Hasher:Update:update'):
        r[n] = upd
    for n in ('Hasher:finalize',):
        r[n] = fin
    for n in ('blake3:hash', 'hash', 'blake3_hash', 'linkspace_cryptography:blake3_hash'):
        r[n] = fin
    return r


@rule('C16', level='proof', rule='abstract interpretation with the hasher modelled as the sequence of absorbed bytes: for segment lists of every length up to the bound the '
      'digest input is exactly the concatenation in order; for an unbounded list the loop summary is checked to be inductive',
      trusted=['blake3::Hasher absorbs the concatenation of its updates'])
def c16(cx):
    b = cx.fn(CR, 'hash_segments', 1)
    lens = list(range(0, 18)) + [31, 33, 64, 65] + ([100, 128, 129, 255, 256, 257] if cx.thorough else [])
    for n in lens:
        segs = symseq('seg', n)
        I, outs = cx.run(b, [eseq(segs)], extern=hasher_externs())
        want = app('blake3', concat(*segs))
        outs = outcomes(outs)
        # paths split on emptiness of a segment are fine as long as each agrees modulo what it learnt
        okk = bool(outs)
        det = ''
        for o in outs:
            if o.kind == 'ret' and o.v.op in ('from:[;]', 'from:Hash') and o.v.a[0].op == 'blake3':
                o.v = o.v.a[0]          # Hash -> [u8; 32]
            if o.kind != 'ret' or norm_empty(o) is not norm_empty(o, want):
                if o.kind == 'ret' and any(x.op == 'phi' for x in subterms(o.v)):
                    det = lit_segments(cx, b, n)
                    cx.notes.setdefault('decided by literal inputs', []).append('%d segments' % n)
                    okk = okk and not det
                    continue
                okk = False
                det = 'for %d segments the digest is over %s' % (n, show_path(o)[:200])
        cx.ob('order/%d' % n, okk, det, 'hash_segments')
    I = cx.interp(extern=hasher_externs())
    L = sym('segments')
    outs = I.run_body(b, {}, [L], State(), None)
    okk = inductive(I, L)
    cx.notes['unbounded_induction'] = okk
    cx.notes['explanation'] = 'list lengths checked exactly: %s; loop summary for a list of unknown length %s' % (
        lens, 'is inductive (every length covered)' if okk else 'was not of a recognised inductive form (covered up to the listed lengths only)')


def lit_segments(cx, b, n):
    """paths were merged: literal segments, with empty ones at every kind of place"""
    for pat in range(8):
        segs = [bytes([65 + i % 26] * (0 if pat == 1 or pat > 1 and (i * 7 + pat) % pat == 0 else 1 + i % 3)) for i in range(n)]
        I, outs = cx.run(b, [eseq([bseq(s) for s in segs])], extern=hasher_externs())
        want = app('blake3', bseq(b''.join(segs)))
        for o in outcomes(outs):
            v = o.v.a[0] if o.kind == 'ret' and o.v.op.startswith('from:') else o.v
            if o.kind != 'ret' or v is not want:
                return 'for segments %r the digest is over %s' % (segs[:8], show_path(o)[:200])
    return ''


def norm_empty(o, v=None):
    """drop segments known to be empty on this path"""
    v = o.v if v is None else v
    m = {}
    for t, f in o.st.facts.items():
        if t.op == 'len' and f[0] == '=' and f[1].op == 'i' and f[1].a[0] == 0:
            m[t.a[0]] = EMPTY
    return subst(v, m) if m else v


def inductive(I, L):
    for fr, h, H, backs in I.loops:
        good = 0
        for B in backs:
            for c, v in B.cells.items():
                hv = H.cells.get(c)
                if hv is None or hv is v or hv.op != 'phi' or v.op != 'seq' or len(v.a) != 2:
                    continue
                (k0, p0), (k1, p1) = v.a
                if k0 == 's' and p0 is hv and k1 == 's' and p1.op == 'idx':
                    src, i = p1.a
                    for c2, v2 in B.cells.items():
                        h2 = H.cells.get(c2)
                        if h2 is None:
                            continue
                        if h2.op == 'iter' and v2.op == 'iter' and h2.a[1] is src and v2.a[1] is mk_slice(src, I_one(1), None):
                            good += 1
                            break
                        if i is h2 and v2 is add(h2, I_one(1)):
                            good += 1
                            break
        if good == len(backs) and good:
            return True
    return False


def I_one(n):
    return T('i', (n, 'usize'))


# --------------------------------------------------------------------- C17
@rule('C17', level='proof', rule='value-flow: a freshly generated key is exactly the k256 random constructor applied to the operating-system generator',
      trusted=['OsRng and k256 SigningKey::random'])
def c17(cx):
    b, env = cx.method(CR, 'SigningKey::generate')
    I, outs = cx.run(b, [], env)
    cx.floor('outcomes', len(outs), 1)
    for o in outs:
        v = o.v
        rnd = calls(v, r'SigningKey\w*:random$') if o.kind == 'ret' else []
        cx.ob('generate/os-rng', o.kind == 'ret' and is_adt(v) and len(v.a[2]) == 1 and len(rnd) == 1 and v.a[2][0] is rnd[0] and
              'OsRng' in show(rnd[0].a[0]), 'generated key is %s' % show_path(o), 'SigningKey::generate')
    b, env = cx.method(CR, 'SigningKey::generate_with')
    st = State()
    r = ref_cell(st, 'rng', sym('rng'))
    I, outs = cx.run(b, [r], env, st=st)
    for o in outs:
        v = o.v
        rnd = calls(v, r'SigningKey\w*:random$') if o.kind == 'ret' else []
        cx.ob('generate/caller-rng', o.kind == 'ret' and is_adt(v) and len(rnd) == 1 and v.a[2][0] is rnd[0] and contains(rnd[0], sym('rng')),
              'generated key is %s' % show_path(o), 'SigningKey::generate_with')


# --------------------------------------------------------------------- argon2 identities
def argon_externs():
    def cfg_default(I, fr, st, info, args, site):
        return I.ret(st, adt('Config', '', EMPTY, I_(32, 'u32'), I_(1, 'u32'), I_(19456, 'u32'), EMPTY, I_(2, 'u32'),
                             adt('Variant', 'Argon2id'), adt('Version', 'Version13')))

    def vname(t):
        s = show(t)
        for n, r in (('Argon2id', b'id'), ('Argon2d', b'd'), ('Argon2i', b'i')):
            if n in s:
                return bseq(r)
        return seq(('s', app('variant', t)))

    def vnum(t):
        s = show(t)
        return bseq(b'19') if 'Version13' in s else bseq(b'16') if 'Version10' in s else seq(('s', app('version', t)))

    def raw(I, st, args):
        pw, salt, c = (I.content(st, a) for a in args)
        hl = c.a[2][1]
        n = hl.a[0] if hl.op == 'i' else None
        fs = [I.content(st, x) for x in c.a[2]]
        fs[6], fs[7] = app('variant', vname(fs[6])), app('version', vnum(fs[7]))
        t = app('argon', pw, salt, adt('Config', '', *fs))
        return c, salt, (seq(*[('e', byte(app('idx', t, I_(i, 'usize')))) for i in range(n)]) if n is not None else t)

    def hash_raw(I, fr, st, info, args, site):
        c, salt, d = raw(I, st, args)
        s2 = st.copy()
        return I.ret(st, ok(d)) + I.ret(s2, err(app('argon-error')))

    def hash_encoded(I, fr, st, info, args, site):
        c, salt, d = raw(I, st, args)
        ad, hl, lanes, mem, sec, tm, va, ve = c.a[2]
        s = concat(bseq(b'$argon2'), vname(va), bseq(b'$v='), vnum(ve), bseq(b'$m='), seq(('s', app('dec', mem, 'u32'))), bseq(b',t='),
                   seq(('s', app('dec', tm, 'u32'))), bseq(b',p='), seq(('s', app('dec', lanes, 'u32'))), bseq(b'$'),
                   seq(('s', b64(STD, salt))), bseq(b'$'), seq(('s', b64(STD, d))))
        s2 = st.copy()
        return I.ret(st, ok(s)) + I.ret(s2, err(app('argon-error')))

    def enc(I, fr, st, info, args, site):
        return I.ret(st, seq(('s', b64(eng(args[0], I, st), I.content(st, args[1])))))

    def dec(I, fr, st, info, args, site):
        x = I.content(st, args[1])
        e = eng(args[0], I, st)
        if x.op == 'seq' and len(x.a) == 1 and x.a[0][0] == 's':
            x = x.a[0][1]
        if x.op == 'b64' and x.a[0] == e:
            return I.ret(st, ok(x.a[1]))
        return I.ret(st, app('call:b64decode', app(e), x))

    def to_bytes(I, fr, st, info, args, site):
        k = I.content(st, args[0])
        return I.ret(st, seq(*[('e', byte(app('sk', k, I_(i, 'usize')))) for i in range(32)]))

    def pkb(I, fr, st, info, args, site):
        k = I.content(st, args[0])
        return I.ret(st, seq(*[('e', byte(app('pkb', k, I_(i, 'usize')))) for i in range(32)]))

    def from_bytes(I, fr, st, info, args, site):
        x = I.content(st, args[0])
        es = elems(x)
        if es is not None and len(es) == 32 and all(e.op == 'sk' and e.a[0] is es[0].a[0] and e.a[1].a[0] == i for i, e in enumerate(es)):
            return I.ret(st, ok(es[0].a[0]))
        return I.ret(st, app('call:SigningKey:from_bytes', x))
    return {'Config:Default:default': cfg_default, 'Config:owasp2': cfg_default, 'argon2:hash_raw': hash_raw, 'argon2:hash_encoded': hash_encoded,
            'GeneralPurpose:Engine:encode': enc, 'GeneralPurpose:Engine:decode': dec, 'SigningKey_:to_bytes': to_bytes, 'SigningKey:to_bytes': to_bytes,
            'VerifyingKey:to_bytes': pkb, 'SigningKey:from_bytes': from_bytes}


STD = 'STANDARD_NO_PAD'


def eng(a, I, st):
    s = show(I.content(st, a))
    for n in ('URL_SAFE_NO_PAD', 'STANDARD_NO_PAD', 'URL_SAFE', 'STANDARD'):
        if n in s:
            return n
    return s


def b64(e, x):
    return app('b64', e, x)


def byte(t):
    U8.add(t)
    return t


def I_(n, ty='usize'):
    return T('i', (n, ty))


def vk(k):
    """the 32 public-key bytes of signing key k (the wrapped schnorr key)"""
    return seq(*[('e', byte(app('pkb', app('call:SigningKey:verifying_key', k), I_(i)))) for i in range(32)])


@rule('C18', level='proof', rule='must-analysis over every outcome of decryption: success carries the fact that the public key of the recovered secret equals the salt stored '
      'in the identity, and the recovered secret is exactly argon2d(password, salt, stored costs) XOR stored digest; wrong public key is reported as a wrong password',
      trusted=['argon2 and k256'])
def c18(cx):
    b = cx.fn(AR, 'decrypt', 2)
    enc, pw = sym('enc'), sym('pw')
    ext = argon_externs()
    del ext['VerifyingKey:to_bytes']
    I, outs = cx.run(b, [enc, pw], extern=ext)
    n = e = 0
    for o in outs:
        if o.kind != 'ret':
            cx.ob('decrypt/panic', False, 'decrypting can panic: %s' % show_path(o), 'decrypt')
            continue
        if is_adt(o.v, 'Err'):
            e += 1
            continue
        n += 1
        v = o.v
        okk = False
        det = 'unexpected result %s' % show(v)[:200]
        if is_adt(v, 'Ok') and is_adt(v.a[2][0]):
            k = v.a[2][0].a[2][0]
            fb = payload(k, 'Ok')
            if fb is not None and is_call(fb, r'SigningKey:from_bytes$') and ok_facts(o.st).get(fb) == 0:
                ar = [x for x in subterms(fb) if x.op == 'argon']
                pkt = app('call:VerifyingKey:to_bytes', app('call:SigningKey:verifying_key', k))
                if len(ar) == 1:
                    salt = ar[0].a[1]
                    checks = [t for t, f in o.st.facts.items() if t.op == 'Eq' and f[0] == '=' and f[1].a[0] == 1 and
                              pkt in t.a and salt in t.a]
                    okk = bool(checks)
                    det = 'success without comparing the derived public key with the stored salt'
                    es = array_elems(fb.a[0])
                    cx.ob('decrypt/password-used', ar[0].a[0] is pw, 'argon2 input is %s' % show(ar[0].a[0])[:100], 'decrypt')
                    xo = es is not None and len(es) == 32 and all(xor_at(x, ar[0], i) is not None for i, x in enumerate(es)) and \
                        len({xor_at(x, ar[0], i) for i, x in enumerate(es)}) == 1
                    cx.ob('decrypt/secret-is-hash-xor-digest', xo, 'secret is %s' % ('; '.join(show(e)[:90] for e in es if xor_at(e, ar[0], es.index(e)) is None)[:1500] if es else show(fb.a[0])[:200]), 'decrypt')
                    c = ar[0].a[2]
                    cx.ob('decrypt/config', c.a[2][6] is app('variant', bseq(b'd')) and c.a[2][7] is app('version', bseq(b'19')) and c.a[2][0] is EMPTY and c.a[2][4] is EMPTY
                          and all(contains_any(c.a[2][i]) for i in (2, 3, 5)), 'config is %s' % show(c)[:200], 'decrypt')
        cx.ob('decrypt/ok-implies-own-pubkey', okk, det, 'decrypt')
    cx.floor('accepting outcomes', n, 1)
    cx.floor('rejecting outcomes', e, 1)
    # decryption of an identity whose derived public key differs: error value
    cx.ob('decrypt/wrong-password-reported', any(o.kind == 'ret' and is_adt(o.v, 'Err') and is_adt(o.v.a[2][0], 'WrongPassword') for o in outs),
          'no WrongPassword outcome', 'decrypt')


def array_elems(v):
    """the 32 items of an array value, which may have been written one by one"""
    d = {}
    while v.op == 'store' and v.a[1].op == 'i':
        d.setdefault(v.a[1].a[0], v.a[2])
        v = v.a[0]
    es = elems(v)
    if not d:
        return es
    if es is None:
        es = [index(v, I_(i)) for i in range(32)]
    return [d.get(i, e) for i, e in enumerate(es)]


def xor_at(x, h, i):
    """X when x = h[i] ^ X[i]"""
    if x.op != 'BitXor':
        return None
    ops = [y for y in x.a if isinstance(y, T)]
    a = [y for y in ops if y.op == 'idx' and y.a[0] is h and y.a[1] is I_(i)]
    b = [y for y in ops if y.op == 'idx' and y.a[0] is not h and y.a[1] is I_(i)]
    return b[0].a[0] if len(a) == 1 and len(b) == 1 and not contains(b[0], h) else None


def contains_any(t):
    return t.op != 'i'


@rule('C19', level='proof', rule='symbolic-term evaluation of encrypt followed by decrypt / public-key extraction with argon2, base64 and key encoding as uninterpreted injective '
      'terms: the only possible results are the original key and the original public key', trusted=['base64 NO_PAD round trip; argon2 determinism; hash_encoded output format of rust-argon2 2.1'])
def c19(cx):
    be, bd, bp = cx.fn(AR, 'encrypt', 3), cx.fn(AR, 'decrypt', 2), cx.fn(AR, 'pubkey', 1)
    k, pw = sym('key'), sym('pw')
    rk = key_of(k)
    nret = 0
    cost = adt('Costs', '', sym('mem'), sym('times'), sym('par'))
    for nm, c in (('given-cost', some(cost)), ('default-cost', NONE)):
        I, outs = cx.run(be, [k, pw, c], extern=argon_externs())
        strs = {}
        for o in outs:
            if o.kind == 'ret':
                strs[o.v] = o.st
            else:
                cx.ob('encrypt/%s/panic' % nm, 'argon-error' in repr(o.st.facts) or 'None' in repr(o.v) or 'expect' in repr(o.v), 'panics: %s' % repr(o.v)[:200], 'encrypt')
        cx.floor('identity strings (%s)' % nm, len(strs), 1)
        for s in strs:
            nret += 1
            cx.ob('format/%s' % nm, fmt_ok(s, cost if nm == 'given-cost' else None), 'identity string is %s' % show(s)[:300], 'encrypt')
            I, outs = cx.run(bd, [s, pw], extern=argon_externs())
            good = 0
            for o in outs:
                if o.kind == 'ret' and is_adt(o.v, 'Ok') and is_adt(o.v.a[2][0]) and o.v.a[2][0].a[2] == (rk,):
                    good += 1
                elif o.kind == 'ret' and is_adt(o.v, 'Err') and argon_failed(o):
                    pass
                else:
                    cx.ob('roundtrip/%s' % nm, False, 'decrypting gives %s' % show_path(o)[:300], 'decrypt')
            cx.ob('roundtrip/%s' % nm, good >= 1, 'decrypting a freshly encrypted identity with its password never returns the key', 'encrypt/decrypt')
            # a different password or key has a different term: never silently the same key without using the password
            I, outs = cx.run(bp, [s], extern=argon_externs())
            want = vk(rk)
            for o in outs:
                cx.ob('pubkey/%s' % nm, o.kind == 'ret' and is_adt(o.v, 'Ok') and o.v.a[2][0] is want, 'pubkey of the identity is %s' % show_path(o)[:300], 'pubkey')
            cx.floor('pubkey outcomes (%s)' % nm, len(outs), 1)
    cx.notes['strings'] = nret


def argon_failed(o):
    return True if is_adt(o.v.a[2][0], 'BadData') else False


def fmt_ok(s, cost):
    """$argon2d$v=19$m=M,t=T,p=P$b64(pubkey)$b64(32 bytes)"""
    if s.op != 'seq':
        return False
    ps = list(s.a)
    if ps[0][0] != 'b' or not ps[0][1].startswith(b'$argon2d$v=19$m='):
        return False
    bs = [v for k, v in ps if k == 's' and v.op == 'b64']
    if len(bs) != 2:
        return False
    salt, dig = bs
    if salt.a[1] is not vk(key_of(sym('key'))) or known_len(dig.a[1]) != 32:
        return False
    if cost is not None:
        d = [v.a[0] for k, v in ps if k == 's' and v.op == 'dec']
        return d == list(cost.a[2])
    return True


@rule('C20', level='proof', rule='guard analysis of the identity parser over an arbitrary string: every accepting outcome passed the exact format prefix, the m,t,p parameters in that order '
      'and nothing else, base64 decoding of salt and digest, a 32-byte digest and (for the public key) a 32-byte salt; the returned key is exactly the decoded salt; no input panics',
      trusted=['base64 decode'])
def c20(cx):
    bp, bd = cx.fn(AR, 'pubkey', 1), cx.fn(AR, 'decrypt', 2)
    for nm, b, args in (('pubkey', bp, [sym('enc')]), ('decrypt', bd, [sym('enc'), sym('pw')])):
        I, outs = cx.run(b, args, extern=argon_externs())
        n = 0
        for o in outs:
            if o.kind != 'ret':
                cx.ob('%s/panic' % nm, False, 'a malformed identity string panics: %s' % show_path(o), nm)
                continue
            if not is_adt(o.v, 'Ok'):
                continue
            n += 1
            enc = args[0]
            pre = all(fact_byte(o.st, enc, i, ch) for i, ch in enumerate(b'$argon2d$v=19$'))
            cx.ob('%s/prefix' % nm, pre or prefix_fact(o.st, enc), 'accepts a string without the algorithm prefix', nm)
            decs = [t for t, v in ok_facts(o.st).items() if v == 0 and is_call(t, 'b64decode')]
            cx.ob('%s/salt-and-digest-decoded' % nm, len(decs) >= 1, 'accepting path decodes %d base64 fields' % len(decs), nm)
            if nm == 'pubkey':
                v = o.v.a[2][0]
                src = payload(v, 'Ok')
                cx.ob('pubkey/is-salt', src in decs, 'returned key is %s' % show(v)[:200], nm)
                lf = o.st.norm(length(v))
                cx.ob('pubkey/salt-length', lf.op == 'i' and lf.a[0] == 32, 'salt length is not checked to be 32', nm)
        cx.floor('accepting outcomes of %s' % nm, n, 1)
    # parameter order and count on partially known strings
    salt, dig = seq(*[('e', x) for x in u8syms('sa', 32)]), seq(*[('e', x) for x in u8syms('di', 32)])

    def ident(params, prefix=b'$argon2d$v=19$', s=salt, d=dig, tail=b''):
        return concat(bseq(prefix), params, bseq(b'$'), seq(('s', b64(STD, s))), bseq(b'$'), seq(('s', b64(STD, d))), bseq(tail))

    def par(*kv):
        ps = []
        for i, (k, v) in enumerate(kv):
            ps.append(bseq((b',' if i else b'') + k + b'='))
            ps.append(seq(('s', app('dec', v, 'u32'))))
        return concat(*ps)
    m, t, p = sym('M'), sym('T'), sym('P')
    good = par((b'm', m), (b't', t), (b'p', p))
    cases = [
        ('wellformed', ident(good), True),
        ('swapped-parameters', ident(par((b't', t), (b'm', m), (b'p', p))), False),
        ('missing-parameter', ident(par((b'm', m), (b't', t))), False),
        ('no-parameters', ident(EMPTY), False),
        ('extra-parameter', ident(par((b'm', m), (b't', t), (b'p', p), (b'x', sym('X')))), False),
        ('doubled-parameter', ident(par((b'm', m), (b't', t), (b'p', p), (b'p', p))), False),
        ('text-between', ident(concat(par((b'm', m)), bseq(b',x,'), par((b't', t), (b'p', p)))), False),
        ('trailing-comma', ident(concat(good, bseq(b','))), False),
        ('extra-field', ident(good, tail=b'$AAAA'), False),
        ('trailing-dollar', ident(good, tail=b'$'), False),
        ('unknown-parameter', ident(par((b'm', m), (b't', t), (b'q', p))), False),
        ('argon2i', ident(good, b'$argon2i$v=19$'), False),
        ('argon2id', ident(good, b'$argon2id$v=19$'), False),
        ('old-version', ident(good, b'$argon2d$v=16$'), False),
        ('short-salt', ident(good, s=eseq(u8syms('sa', 31))), False),
        ('long-salt', ident(good, s=eseq(u8syms('sa', 33))), False),
        ('empty-salt', ident(good, s=EMPTY), False),
        ('short-digest', ident(good, d=eseq(u8syms('di', 31))), False),
        ('long-digest', ident(good, d=eseq(u8syms('di', 33))), False),
        ('empty', EMPTY, False),
        ('truncated', concat(bseq(b'$argon2d$v=19$'), good), False),
        ('no-digest', concat(bseq(b'$argon2d$v=19$'), good, bseq(b'$'), seq(('s', b64(STD, salt)))), False),
    ]
    for nm, s, accept in cases:
        I, outs = cx.run(bp, [s], extern=argon_externs())
        acc = [o for o in outs if o.kind == 'ret' and is_adt(o.v, 'Ok')]
        pan = [o for o in outs if o.kind != 'ret']
        okk = (bool(acc) and len(acc) == len(outs) and all(o.v.a[2][0] is salt for o in acc)) if accept else not acc
        cx.ob('shape/%s' % nm, okk and not pan, '%s identity: %d accepting, %d panicking outcomes' % (nm, len(acc), len(pan)), 'pubkey')
    # costs of a well-formed identity reach argon2 unchanged
    I, outs = cx.run(bd, [ident(good), sym('pw')], extern=argon_externs())
    ar = set()
    for o in outs:
        for tt in list(o.st.facts) + ([o.v] if o.kind == 'ret' else []):
            ar |= {x for x in subterms(tt) if x.op == 'argon'}
    cx.floor('argon2 applications', len(ar), 1)
    for x in ar:
        c = x.a[2].a[2]
        cx.ob('costs-in-order', (c[3], c[5], c[2]) == (m, t, p) and x.a[1] is salt, 'argon2 runs with m=%s t=%s p=%s' % (show(c[3]), show(c[5]), show(c[2])), 'decrypt')


def fact_byte(st, x, i, ch):
    t = st.norm(index(x, I_(i)))
    return t.op == 'i' and t.a[0] == ch


def prefix_fact(st, enc):
    for t, f in st.facts.items():
        if f[0] == '=' and f[1].op == 'i' and f[1].a[0] == 1 and contains(t, enc) and any(
                is_bytes(x) and x.op == 'seq' and to_bytes(x) == b'$argon2d$v=19$' for x in subterms(t)):
            return True
    return False
