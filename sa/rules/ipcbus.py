"""C21-C24: the inter-process bus over loopback multicast."""
from check import rule, Missing
from dom import *
from interp import Out, Frame
from models import store
from rules.util import *
from rules.abe_eval import arms
from rules.abe_funcs import same_val, holds
from rules.abe_struct import lit, Table, fact

PB = 'udp_procbus::'
EV = ('rule', 'events')
VAL, EVENT, LISTENER, SOCKETS = sym('the bus value'), sym('the wake-up event'), sym('the listener slot'), ('tx', 'rx')


def events(st):
    """the effects of a path in order; 'earlier' stands for those of any number of loop rounds"""
    v = st.cells.get(EV)
    r = []
    while v is not None:
        if v.op != 'then':
            r.append(adt('event', None, sym('earlier')))
            break
        r.append(v.a[1])
        v = v.a[0] if v.a[0] is not UNIT else None
    return r[::-1]


def event(st, *a):
    e = adt('event', None, *[sym(x) if isinstance(x, str) else x for x in a])
    st.cells[EV] = app('then', st.cells.get(EV, UNIT), e)


def fresh(st):
    return app('seen', st.cells.get(EV, UNIT))


def kind(e):
    return e.a[2][0].a[0]


def named(st, k):
    return [e.a[2][1:] for e in events(st) if kind(e) == k]


class Bus:
    """the outside world of the bus: atomics, sockets, files, threads; every effect is recorded in order"""

    def __init__(self, fails=2, grams=(), files=None, send_fails=True):
        self.fails, self.grams, self.files, self.send_fails = fails, list(grams), files or {}, send_fails
        self.n = 0
        self.writes, self.lowered = 0, []
        self.room = None
        self.pid, self.ident = sym('pid'), ID

    def on_call(self, I_, fr, st, info, args, site):
        m, b = info.method, info.base
        k = info.key
        f = None
        if 'tracing:*' in info.keys or info.trait is not None and (info.trait.n == 'Callsite' or b in ('Level', 'LevelFilter')) or b in ('DefaultCallsite', 'Interest', 'Metadata', 'FieldSet', 'ValueSet', 'Span', 'Entered'):
            return self.tracing(I_, fr, st, info, args)
        if m in ('call', 'call_mut', 'call_once') and len(args) == 2 and args[0].op == 'clo' and self.is_log(I_, fr, args[0]):
            return [Out('ret', UNIT, st)]
        if b in ('AtomicU64', 'AtomicUsize', 'AtomicU32') and info.trait is None:
            return self.atomic(I_, fr, st, info, args, site)
        if m in ('default', 'new') and b in ('AtomicU64', 'Event', 'OnceLock'):
            if b == 'AtomicU64':
                event(st, 'start', args[0] if args else I(0, 'u64'))
            return [Out('ret', {'AtomicU64': VAL, 'Event': EVENT, 'OnceLock': LISTENER}[b], st)]
        if b == 'Event' and m.startswith('notify'):
            event(st, 'notify', *[I_.content(st, a) for a in args])
            return [Out('ret', UNIT, st)]
        if b == 'Socket' and info.trait is None:
            return self.socket(I_, st, info, args)
        if k in ('process::id', 'std::process::id') or 'process::id' in info.keys:
            return [Out('ret', self.pid, st)]
        if m == 'as_raw_fd' or m == 'as_fd':
            return [Out('ret', I_.content(st, args[0]), st)]
        if m == 'new' and b in ('Ipv4Addr', 'SocketAddrV4', 'SocketAddr') and info.trait is None:
            a = [I_.content(st, x) for x in args]
            return [Out('ret', eseq(a) if b == 'Ipv4Addr' else tup(*a), st)]
        if 'libc:setsockopt' in info.keys:
            event(st, 'option', *[I_.content(st, a) for a in args])
            s = st.copy()
            event(s, 'option failed')
            return [Out('ret', I(0, 'i32'), st), Out('ret', I(-1, 'i32'), s)]
        return self.more(I_, fr, st, info, args, site)

    def more(self, I_, fr, st, info, args, site):
        return None

    def is_log(self, I_, fr, f):
        b = I_.closure_body(fr, f.a[0])
        return b is not None and len(b.args) == 2 and 'tracing::field::ValueSet' in b.args[1][1]

    def tracing(self, I_, fr, st, info, args):
        """logging is on or off, for the whole path; neither has an effect"""
        m = info.method
        t = app('logging')
        if m in ('le', 'lt', 'ge', 'gt') or m == '__is_enabled':
            r = []
            for v, s in I_.fork_bool(st, t):
                r.append(Out('ret', B(v), s))
            return r
        if m in ('is_never', 'is_always', 'is_disabled'):
            return [Out('ret', FALSE, st)]
        return [Out('ret', app('log:' + m), st)]

    def atomic(self, I_, fr, st, info, args, site):
        """other threads may change the value at any time: a read gives anything, an exchange may lose"""
        m = info.method
        tgt, a = I_.content(st, args[0]), [st.norm(I_.deref(st, x)) for x in args[1:]]
        v = fresh(st)
        if m == 'load':
            event(st, 'load', tgt, v)
            return [Out('ret', v, st)]
        if m in ('compare_exchange', 'compare_exchange_weak'):
            r = []
            s = st.copy()
            self.write(s, a[0], a[1], tgt)
            event(s, 'write', tgt, a[0], a[1])
            r.append(Out('ret', ok(a[0]), s))
            if self.fails is None or len(named(st, 'lost')) < self.fails:
                s = st.copy()
                event(s, 'lost', tgt, v, a[0])
                r.append(Out('ret', err(v), s))
            return r
        if m == 'fetch_max':
            r = []
            for k, s in I_.fork_bool(st, lt(a[0], v)):
                event(s, 'load' if k else 'write', tgt, *((v,) if k else (v, a[0])))
                if not k:
                    self.write(s, v, a[0], tgt)
                r.append(Out('ret', v, s))
            return r
        if m == 'fetch_update' and args[-1].op == 'clo':
            r = []
            for o in I_.call_value(fr, st, args[-1], [v], site):
                if o.kind != 'ret':
                    r.append(o)
                    continue
                for i, s in I_.fork_bool(o.st, eq(I_.discr(o.st, o.v), I(1, 'isize'))):
                    if i:
                        x = s.norm(I_.field(o.v, 0, 'Some'))
                        self.write(s, v, x, tgt)
                        event(s, 'write', tgt, v, x)
                        r.append(Out('ret', ok(v), s))
                    else:
                        event(s, 'load', tgt, v)
                        r.append(Out('ret', err(v), s))
            return r
        self.write(st, None, None, tgt)
        event(st, 'write', tgt, app('any'), app('atomic:' + m, *a))
        return [Out('ret', v if m.startswith('fetch') or m == 'swap' else UNIT, st)]

    def write(self, st, old, new, tgt):
        self.writes += 1
        if tgt is VAL and (old is None or st.decide(lt(new, old)) is not False):
            self.lowered.append('%s may lower the bus value' % ('a write' if old is None else 'replacing %s by %s' % (show(old)[:40], show(new)[:40])))

    def socket(self, I_, st, info, args):
        m = info.method
        a = [I_.content(st, x) for x in args]
        if m == 'new':
            v = sym('socket%d' % len(named(st, 'socket')))
            event(st, 'socket', v, *a)
            return [Out('ret', ok(v), st)]
        event(st, m, *a)
        if m in ('as_raw_fd', 'as_fd', 'try_clone'):
            return [Out('ret', a[0], st)]
        if m == 'send_to':
            r = [Out('ret', ok(st.norm(length(a[1]))), st)]
            if self.send_fails:
                s = st.copy()
                event(s, 'send failed')
                r.append(Out('ret', err(sym('send error')), s))
            return r
        return [Out('ret', ok(UNIT), st)]


def go(ctx, path, args, env=None, hook=None, st=None, **kw):
    from program import Ty
    b, e = ctx.method('ipcbus', path)
    e = dict(e)
    e.update({k: Ty(v) for k, v in (env or {}).items()})
    I_ = ctx.interp(hooks=[hook or Bus()], **dict(dict(table=True, unroll_width=2000), **kw))
    return I_, arms(I_.run_body(b, e, list(args), st or State(), None))


def bus(ctx, ident=None, pid=None):
    """the bus as its constructor makes it"""
    h = New()
    h.ident = eseq(ident) if ident else ID
    h.pid = sym('pid') if pid is None else I(pid, 'u32')
    I_, outs = go(ctx, PB + 'ProcBus::new', [sym('dir')], hook=h)
    good = [o for o in outs if o.kind == 'ret' and is_adt(o.v, 'Ok')]
    if not good:
        raise Missing('ProcBus::new: no success')
    return I_.content(good[0].st, good[0].v.a[2][0])


ID = eseq(u8syms('id', 8))


class New(Bus):
    def more(self, I_, fr, st, info, args, site):
        if 'fs:read' in info.keys or 'fs::read' in info.keys:
            event(st, 'read', I_.content(st, args[0]))
            return [Out('ret', ok(self.ident), st)]
        if info.method == 'get_port' and info.trait is None:
            event(st, 'get_port', st.norm(args[0]))
            return [Out('ret', ok(sym('port')), st)]
        return None


class Waiter(Bus):
    def more(self, I_, fr, st, info, args, site):
        m = info.method
        if m in ('listen', 'wait', 'wait_deadline', 'wait_timeout') and info.trait is None and 'EventListener' in info.callee:
            event(st, m, *[I_.content(st, a) for a in args[1:]])
            if m.startswith('wait_'):
                s = st.copy()
                event(s, 'timeout')
                return [Out('ret', some(UNIT), st), Out('ret', NONE, s)]
            return [Out('ret', UNIT, st)]
        if info.base == 'EventListener' and m == 'new':
            event(st, 'listener', *[I_.content(st, a) for a in args])
            return [Out('ret', sym('listener'), st)]
        if info.base == 'Event' and m == 'listen':
            event(st, 'listener', *[I_.content(st, a) for a in args])
            event(st, 'listen')
            return [Out('ret', sym('listener'), st)]
        if m == 'poll' and 'EventListener' in info.callee:
            event(st, 'await')
            s = st.copy()
            return [Out('ret', adt('Poll', 'Ready', UNIT), st), Out('ret', adt('Poll', 'Pending'), s)]
        return None


class Receiver(Bus):
    """a listener thread that gets the given datagrams and then an error of its socket"""

    def more(self, I_, fr, st, info, args, site):
        m, b = info.method, info.base
        if m == 'align_offset':
            v = app('skew')
            st.assume(lt(v, args[1]), TRUE)
            return [Out('ret', v, st)]
        if m in ('get_or_init', 'force') and b in ('OnceLock', 'OnceCell', 'LazyLock'):
            event(st, 'once', I_.content(st, args[0]))
            return I_.call_value(fr, st, args[1], [], site)
        if m == 'spawn' and info.trait is None:
            f = args[-1]
            event(st, 'spawn')
            r = I_.call_value(fr, st, f, [], site)
            return [Out('ret', ok(sym('thread')) if b == 'Builder' else sym('thread'), o.st) if o.kind == 'ret' else o for o in r]
        x = I_.content(st, args[0]) if args else None
        if x is not None and x.op == 'sender':
            if m in ('as_socket_ipv4', 'as_socket', 'as_inet'):
                return [Out('ret', some(x), st)]
            if m in ('ip', 'clone', 'to_canonical'):
                return [Out('ret', x, st)]
            if m == 'is_loopback':
                return [Out('ret', B(self.grams[x.a[0].a[0]][1]), st)]
        if m in ('slice_assume_init_ref', 'assume_init_ref') and b == 'MaybeUninit':
            return [Out('ret', args[0], st)]
        return None

    def socket(self, I_, st, info, args):
        if not info.method.startswith('recv'):
            return Bus.socket(self, I_, st, info, args)
        k = len(named(st, 'received'))
        event(st, 'received', I_.content(st, args[0]))
        if k >= len(self.grams):
            return [Out('ret', err(sym('socket error')), st)]
        g = self.grams[k][0]
        n = len(g)
        lo, hi = st.bounds(length(I_.content(st, args[1])))
        if not any(t.op == 'unused' for t in subterms(I_.content(st, args[1]))):
            self.room = lo          # of the start of the aligned part: as little room as there may be
        if self.room is None:
            raise Missing('the size of the receive buffer is not known')
        n = min(self.room, n)
        store(I_, st, args[1], concat(eseq(g[:n]), app('unused', I(k))))
        x = app('sender', I(k))
        return [Out('ret', ok(tup(I(n, 'usize'), x) if info.method.endswith('from') else I(n, 'usize')), st)]


class Registry(Bus):
    """the port registry in its file, and the lock file beside it"""

    def __init__(self, content=None, error=None, **kw):
        Bus.__init__(self, **kw)
        self.content, self.error = content, error

    def more(self, I_, fr, st, info, args, site):
        m = info.method
        if 'LockFile' in (info.base, info.callee.split('::')[-2] if '::' in info.callee else ''):
            a = [I_.content(st, x) for x in args]
            bad = st.copy()
            event(bad, m + ' failed')
            r = [Out('ret', err(sym('lock error')), bad)]
            if m == 'open':
                event(st, 'lock file', *a)
                r.append(Out('ret', ok(sym('lock')), st))
            elif m.startswith('try_lock'):
                s = st.copy()
                event(st, 'lock')
                r += [Out('ret', ok(TRUE), st), Out('ret', ok(FALSE), s)]
            elif m.startswith('lock'):
                event(st, 'lock')
                r.append(Out('ret', ok(UNIT), st))
            elif m == 'unlock':
                event(st, 'unlock')
                event(bad, 'unlock')
                r.append(Out('ret', ok(UNIT), st))
            else:
                return None
            return r
        if 'mem:drop' in info.keys and I_.content(st, args[0]) is sym('lock'):
            event(st, 'unlock')
            return [Out('ret', UNIT, st)]
        if 'env:temp_dir' in info.keys:
            return [Out('ret', sym('tmp'), st)]
        if m == 'join' and info.base in ('Path', 'PathBuf'):
            return [Out('ret', app('join', *[I_.content(st, x) for x in args]), st)]
        if 'fs:read' in info.keys:
            event(st, 'read', I_.content(st, args[0]))
            if self.error:
                return [Out('ret', err(app('io error', lit(self.error.encode()))), st)]
            return [Out('ret', ok(self.content), st)]
        if m == 'kind' and I_.content(st, args[0]).op == 'io error':
            return [Out('ret', adt(*I_.variant_of(['std', 'io', 'ErrorKind', self.error])), st)]
        if 'fs:write' in info.keys:
            event(st, 'file write', I_.content(st, args[0]), I_.content(st, args[1]))
            return [Out('ret', ok(UNIT), st)]
        return None

    def on_drop(self, I_, fr, st, pl, ty):
        if 'LockFile' in str(ty) and I_.content(st, I_.read(st, fr, pl)) is sym('lock'):
            event(st, 'unlock')


# ---------------------------------------------------------------- helpers of the rules
def nums(*a):
    return [I(x, 'u8') for x in a]


def path(o):
    return ' '.join(show(e)[6:-1].split(',')[0] for e in events(o.st))


def at(st, k):
    return [i for i, e in enumerate(events(st)) if kind(e) == k]


def cannot(ctx, key, outs, what):
    """no path of outs panics"""
    bad = [o for o in outs if o.kind == 'panic']
    ctx.ob(key + '/no-panic', not bad, '%s: %s' % (what, '%d paths, none panics' % len(outs) if not bad else show_path(bad[0])[:300]))
    return [o for o in outs if o.kind == 'ret']


def tells(st, v, local, wrote=None):
    """what is wrong with the effects of one signal of value v on this path (None: nothing)"""
    ev = events(st)
    w = [(i, e) for i, e in enumerate(ev) if kind(e) == 'write']
    snd, ntf = at(st, 'send_to'), [i for i, e in enumerate(ev) if kind(e) == 'notify']
    if not w:
        if snd or ntf:
            return 'a signal is sent though the value was not taken'
        seen = [e.a[2][2] for e in ev if kind(e) in ('load', 'lost')]
        if not any(st.decide(lt(v, x)) is True for x in seen) and not any(kind(e) == 'earlier' for e in ev):
            return 'the value is dropped though no greater value was seen'
        return None
    if len(w) > 1:
        return 'the value is written more than once'
    i, e = w[0]
    if e.a[2][1] is not VAL or st.norm(e.a[2][3]) is not st.norm(v):
        return 'written value is %s' % show(e.a[2][3])[:80]
    stale = [x.a[2][3] for x in ev if kind(x) == 'lost']
    if e.a[2][2] in stale or len(set(stale)) < len(stale):
        return 'an exchange is tried again with the old value it failed with'
    if not ntf or not any(j > i and ev[j].a[2][1] is EVENT and ev[j].a[2][2].op == 'i' and ev[j].a[2][2].a[0] == (1 << 64) - 1 for j in ntf):
        return 'not all waiters are woken after the value is written'
    if len(snd) != (1 if local else 0):
        return '%d datagrams are sent' % len(snd)
    return None


def emitters(ctx):
    """(name, path, type arguments, local)"""
    return [('emit', PB + 'ProcBus::emit', {}, True), ('_emit', PB + 'ProcBus::_emit', {'SKIP_UDP': 'false'}, True), ('_emit, received', PB + 'ProcBus::_emit', {'SKIP_UDP': 'true'}, False)]


@rule('C21', level='proof', rule='every write of the bus value in the crate is an exchange from a value that is not greater; a signal is written, then broadcast and all waiters woken, unless a greater value was seen',
      trusted=['std atomics and OnceLock', 'event-listener (a notified listener wakes)'])
def c21(ctx):
    b = bus(ctx)
    v = sym('v')
    seen_writes, n = set(), 0
    for name, p, env, local in emitters(ctx):
        for mode, fails in (('any number of lost exchanges', None), ('up to three lost exchanges', 3)):
            h = Bus(fails=fails)
            try:
                I_, outs = go(ctx, p, [b, v], env, hook=h, table=fails is not None)
            except Missing:
                raise
            except Exception as e:
                if fails is None:
                    ctx.notes.setdefault('retry_loop', []).append('%s: the retry loop is not of a known shape (%s); decided for up to three lost exchanges' % (name, type(e).__name__))
                    continue
                raise
            if fails is None and any(kind(e) == 'earlier' for o in outs for e in events(o.st)) and any(o.kind == 'panic' for o in outs):
                ctx.notes.setdefault('retry_loop', []).append('%s: the retry loop is not of a known shape' % name)
                continue
            key = 'emit/%s/%s' % (name, 'any' if fails is None else 'few')
            ctx.ob(key + '/never-lowered', not h.lowered and h.writes, '%s, %s: %s' % (name, mode, h.lowered[0] if h.lowered else '%d writes, each over a value that is not greater' % h.writes))
            outs = cannot(ctx, key, outs, name)
            n += len(outs)
            bad = [(t, o) for o in outs for t in [tells(o.st, v, local)] if t]
            ctx.ob(key + '/signal', outs and not bad, '%s, %s: %s' % (name, mode, '%d paths' % len(outs) if not bad else '%s (path: %s)' % (bad[0][0], path(bad[0][1]))))
            ctx.ob(key + '/both', any(named(o.st, 'write') for o in outs) and any(not named(o.st, 'write') for o in outs), '%s: paths with and without a signal exist' % name)
            wrong = []
            for o in outs:
                r = o.st.norm(o.v)
                if named(o.st, 'write'):
                    if r is not o.st.norm(v):
                        wrong.append('%s is returned after the value was written' % show(r)[:80])
                elif r is v or o.st.decide(lt(v, r)) is not True:
                    wrong.append('%s is returned though a greater value stands' % show(r)[:80])
            ctx.ob(key + '/result', not wrong, '%s returns the value that stands: %s' % (name, wrong[0] if wrong else '%d paths' % len(outs)))
    ctx.floor('emit paths', n, 20)
    # the reader
    h = Waiter()
    I_, outs = go(ctx, PB + 'ProcBus::val', [b], hook=h)
    outs = cannot(ctx, 'val', outs, 'val')
    ctx.ob('val/current', outs and not h.writes and all(any(e[0] is VAL and e[1] is o.v for e in named(o.st, 'load')) for o in outs), 'val() is the value loaded')
    # the waiter
    for nm, d in (('without a deadline', NONE), ('with a deadline', some(sym('deadline')))):
        h = Waiter()
        I_, outs = go(ctx, PB + 'ProcBus::next_deadline', [b, d], hook=h)
        outs = cannot(ctx, 'wait/' + nm, outs, 'next_deadline ' + nm)
        bad = []
        for o in outs:
            li, ls, w = at(o.st, 'listener'), at(o.st, 'listen'), at(o.st, 'wait') + at(o.st, 'wait_deadline') + at(o.st, 'wait_timeout')
            if not (li and ls and w and max(li + ls) < min(w)):
                bad.append('waits before the listener is registered')
                continue
            if any(e[0] is not EVENT for e in named(o.st, 'listener')):
                bad.append('listens to something else')
            if is_adt(o.v, 'None'):
                if d is NONE or not named(o.st, 'timeout'):
                    bad.append('gives nothing without a timeout')
                elif not any(contains(x, sym('deadline')) for e in events(o.st) if kind(e).startswith('wait_') for x in e.a[2][1:]):
                    bad.append('waits for another deadline')
            elif is_adt(o.v, 'Some'):
                after = [e.a[2] for e in events(o.st)[max(w) + 1:] if kind(e) == 'load']
                if not any(e[1] is VAL and e[2] is o.v.a[2][0] for e in after):
                    bad.append('the value given was not read after the wake-up')
                if named(o.st, 'timeout'):
                    bad.append('gives a value after a timeout')
        ctx.ob('wait/%s' % nm, outs and any(is_adt(o.v, 'Some') for o in outs) and not bad and not h.writes and not h.lowered,
               'next_deadline %s registers, waits and then reads: %s' % (nm, bad[0] if bad else '%d paths' % len(outs)))
    # nothing else writes the value
    todo = []
    for (cr, name), bs in sorted(ctx.P.bodies.items()):
        if cr != 'ipcbus':
            continue
        for x in bs:
            for w in atomic_writes(x):
                todo.append((name, x, w))
    ctx.floor('atomic writes', len(todo), 1)
    own = {'_emit'}
    for name, x, w in todo:
        last = name.split('::')[-1]
        if last in own or not (x.args and 'ProcBus' in x.args[0][1]):
            continue
        h = Bus()
        I_ = ctx.interp(hooks=[h], table=True, unroll_width=2000)
        arms(I_.run_body(x, {}, [b] + [sym('arg%d' % i) for i in range(1, len(x.args))], State(), None))
        ctx.ob('other/' + last, not h.lowered, '%s %s: %s' % (last, w, h.lowered[0] if h.lowered else 'never lowers the value'))


def atomic_writes(body):
    import re
    r = []
    for stmts, t, cleanup in body.blocks:
        if t is not None and t.kind == 'call' and t.a[1][0] == 'fn':
            m = re.search(r'Atomic\w+(?:::<[^>]*>)?::([a-z_]+)(?:::<.*>)?$', t.a[1][1])
            if m and m.group(1) not in ('load', 'new', 'default'):
                r.append(m.group(1))
    return r


SELF_PID, SELF_ID = 0x0a1b2c3d, (0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88)


def datagram(ident=SELF_ID[::-1], pid=(0x3e, 0x2c, 0x1b, 0x0a), val=None, prefix='v'):
    """what a process sends; identity and process number in native (little-endian) order, as the official build's target has it"""
    return nums(*ident) + nums(*pid) + (val or u8syms(prefix, 8))


def other(x, name):
    """a byte of any value but x"""
    s = sym(name)
    U8.add(s)
    return s, ('dom', ((1 << 256) - 1) & ~(1 << x))


def init(ctx, b, grams, facts=(), fails=0):
    st = State()
    for s, f in facts:
        st.facts[s] = f
    h = Receiver(fails=fails, grams=grams)
    I_, outs = go(ctx, PB + 'ProcBus::init', [b], hook=h, st=st)
    return h, outs


@rule('C22', level='proof', rule='init starts one listener thread; of the datagrams it is given exactly those of 20 bytes from a loopback address with this bus id and another process number signal their value, and none ends it',
      trusted=['socket2', 'the listener socket is IPv4, so every sender has an IPv4 address'])
def c22(ctx):
    own = nums(*[(SELF_PID >> 8 * i) & 255 for i in range(4)])
    b = bus(ctx, nums(*SELF_ID), SELF_PID)
    good = datagram()
    v = app('from_le', eseq(good[12:]), 'u64')
    cases = []
    for n in list(range(0, 41)) + [64, 1500] + ([65507] if ctx.thorough else []):
        if n != 20:
            cases.append(('length %d' % n, u8syms('w', n), True, ()))
            if n > 20 or n >= 12:
                cases.append(('length %d with this bus id' % n, (datagram(prefix='w') + u8syms('x', max(0, n - 20)))[:n], True, ()))
    for i in range(8):
        s, f = other(SELF_ID[7 - i], 'o%d' % i)
        g = datagram(prefix='w')
        cases.append(('byte %d of the bus id differs' % i, g[:i] + [s] + g[i + 1:], True, [(s, f)]))
    cases.append(('any bus id of another value in the first byte', [other(SELF_ID[7], 'p0')[0]] + u8syms('y', 19), True, [other(SELF_ID[7], 'p0')]))
    g = datagram(prefix='w')
    cases.append(('from this process', g[:8] + own + g[12:], True, ()))
    cases.append(('from another host', datagram(prefix='w'), False, ()))
    cases.append(('from another host, any content', u8syms('w', 20), False, ()))
    ctx.floor('datagrams to be ignored', len(cases), 60)
    starts = set()
    for nm, g, local, facts in cases:
        h, outs = init(ctx, b, [(g, local), (good, True)], facts)
        outs = cannot(ctx, 'ignored/' + nm, outs, 'a datagram %s' % nm)
        bad = [t for o in outs for t in [tells(o.st, v, False)] if t] + ['the listener ends' for o in outs if len(named(o.st, 'received')) != 3]
        ctx.ob('ignored/' + nm, outs and any(named(o.st, 'write') for o in outs) and not bad and not h.lowered,
               'a datagram %s is ignored and the next one handled: %s' % (nm, bad[0] if bad else '%d paths' % len(outs)))
        starts |= {(len(named(o.st, 'once')), len(named(o.st, 'spawn'))) for o in outs}
    for i in range(4):
        x = own[i].a[0]
        s, f = other(x, 'q%d' % i)
        g = datagram(pid=(0, 0, 0, 0))
        g = g[:8] + own[:i] + [s] + own[i + 1:] + g[12:]
        h, outs = init(ctx, b, [(g, True)], [(s, f)], fails=2)
        outs = cannot(ctx, 'taken/pid%d' % i, outs, 'a datagram of another process')
        bad = [t for o in outs for t in [tells(o.st, v, False)] if t] + ['the listener ends' for o in outs if len(named(o.st, 'received')) != 2]
        ctx.ob('taken/pid%d' % i, outs and any(named(o.st, 'write') for o in outs) and not bad and not h.lowered,
               'a datagram of a process whose number differs in byte %d signals its value: %s' % (i, bad[0] if bad else '%d paths' % len(outs)))
    two = datagram(prefix='t')
    h, outs = init(ctx, b, [(two, True), (good, True)])
    outs = cannot(ctx, 'taken/two', outs, 'two datagrams')
    ws = {tuple(show(e[2]) for e in named(o.st, 'write')) for o in outs}
    ctx.ob('taken/two', outs and all(len(named(o.st, 'received')) == 3 for o in outs) and max(map(len, ws)) == 2, 'both of two datagrams are handled: %s' % sorted(ws)[-1:])
    ctx.ob('start/once', starts == {(1, 1)}, 'init starts the listener inside the once-cell, one thread: %s' % sorted(starts))


def message(ctx, b, v):
    """the datagrams emit sends for v: [(path, bytes)]"""
    I_, outs = go(ctx, PB + 'ProcBus::emit', [b, v], hook=Bus(fails=1))
    return [(o, e) for o in outs for e in named(o.st, 'send_to')], outs


@rule('C23', level='proof', rule='emit sends one datagram of 20 bytes, bus id, process number and value, to the group address; a listener of another process on the bus that gets it signals that value; the sockets are bound to that group on loopback',
      trusted=['socket2 and the kernel deliver datagrams on loopback'])
def c23(ctx):
    b = bus(ctx, nums(*SELF_ID), SELF_PID)
    peer = bus(ctx, nums(*SELF_ID), 77)
    vals = [0, 1, 0xff, 0x0102030405060708, (1 << 63) + 5, (1 << 64) - 1]
    for v in [None] + vals:
        raw = u8syms('v', 8)
        val = app('from_le', eseq(raw), 'u64') if v is None else I(v, 'u64')
        nm = 'any value' if v is None else hex(v)
        ms, outs = message(ctx, b, val)
        cannot(ctx, 'message/' + nm, outs, 'emit')
        want = eseq(datagram(pid=[(SELF_PID >> 8 * i) & 255 for i in range(4)], val=raw if v is None else nums(*[(v >> 8 * i) & 255 for i in range(8)])))
        bad = [show(e[1]) for o, e in ms if not same_val(o.st.norm(e[1]), want)]
        ctx.ob('message/%s' % nm, ms and not bad, 'the datagram for %s is the bus id, the process number and the value, each in native order: %s' % (nm, bad[0][:120] if bad else '%d paths' % len(ms)))
        for o, e in ms[:1]:
            x = elems(o.st.norm(e[1]))
            if x is None:
                ctx.ob('roundtrip/' + nm, False, 'the datagram %s has no known bytes' % show(e[1])[:100])
                continue
            h, ro = init(ctx, peer, [(list(x), True)])
            ro = cannot(ctx, 'roundtrip/' + nm, ro, 'the listener of another process')
            bad = [t for p in ro for t in [tells(p.st, val, False)] if t]
            ctx.ob('roundtrip/' + nm, ro and any(named(p.st, 'write') for p in ro) and not bad, 'another process on the bus that gets the datagram signals the value: %s' % (bad[0] if bad else '%d paths' % len(ro)))
            h, ro = init(ctx, b, [(list(x), True)])
            ctx.ob('echo/' + nm, ro and not any(named(p.st, 'write') for p in ro), 'the process that sent it ignores it')
    # a lost datagram is not an error
    ms, outs = message(ctx, b, sym('v'))
    lost = [o for o in outs if named(o.st, 'send failed')]
    ctx.ob('send-failure', lost and all(o.kind == 'ret' and named(o.st, 'notify') for o in lost), 'a failed send still wakes the waiters of this process')
    # the bus
    h = New()
    h.ident = eseq(nums(*SELF_ID))
    I_, outs = go(ctx, PB + 'ProcBus::new', [sym('dir')], hook=h)
    outs = [o for o in outs if o.kind == 'ret' and is_adt(o.v, 'Ok')]
    want = int.from_bytes(bytes(SELF_ID), 'big')
    ctx.ob('new/id', outs and all([x[0].a[0] for x in named(o.st, 'get_port')] == [want] for o in outs), 'the bus id is the 8 bytes of the id file, big-endian, and the port is that of the bus id')
    ctx.ob('new/file', outs and all(any('id' in show(x[0]) and contains(x[0], sym('dir')) for x in named(o.st, 'read')) for o in outs), 'the id file is in the given directory')
    for k in (0, 7, 9):
        h = New()
        h.ident = eseq(u8syms('id', k))
        I_, no = go(ctx, PB + 'ProcBus::new', [sym('dir')], hook=h)
        ctx.ob('new/length%d' % k, no and not any(o.kind == 'ret' and is_adt(o.v, 'Ok') for o in no), 'an id file of %d bytes gives no bus' % k)
    # the sockets, as the constructor leaves them
    n = 0
    for o in outs:
        n += 1
        w = sockets(o.st, ms[0][1] if ms else None)
        ctx.ob('sockets/%d' % n, not w, 'sender and listener of the bus: %s' % (w or 'one group address, loopback only, shared port'))
    ctx.floor('constructor paths', n, 1)


def plain(t):
    """an address without the conversions around it, as text"""
    import re
    s = show(t)
    while True:
        m = re.match(r'^(?:from|into|call|new):?[\w:]*\((.*)\)$', s)
        if not m:
            return s
        s = m.group(1)


def sockets(st, sent):
    """what is wrong with the sockets set up on this path (None: nothing)"""
    tx, to = (sent[0], sent[2]) if sent else (None, None)
    ev = [(kind(e), e.a[2][1:]) for e in events(st)]
    binds = [(i, a) for i, (k, a) in enumerate(ev) if k == 'bind']
    if len(binds) != 1 or tx is None:
        return '%d sockets are bound' % len(binds)
    i, (rx, addr) = binds[0]
    if tx is rx:
        return 'one socket sends and listens'
    if plain(addr) != plain(to):
        return 'the listener is bound to %s but datagrams go to %s' % (plain(addr), plain(to))
    if 'port' not in plain(addr):
        return 'the port of %s is not that of the bus' % plain(addr)
    for s in (tx, rx):
        m = [a for k, a in ev if k == 'socket' and a[0] is s]
        if not m or 'IPV4' not in show(m[0][1]) or 'DGRAM' not in show(m[0][2]):
            return 'not an IPv4 datagram socket'
    j = [(p, a) for p, (k, a) in enumerate(ev) if k == 'join_multicast_v4']
    if not any(a[0] is rx and plain(a[1]) in plain(addr) and 'LOCALHOST' in show(a[2]) and p > i for p, a in j):
        return 'the listener does not join the group of %s on loopback' % plain(addr)
    if not any(k == 'set_multicast_if_v4' and a[0] is tx and 'LOCALHOST' in show(a[1]) for k, a in ev):
        return 'datagrams are not sent through the loopback interface'
    ttl = [a[1] for k, a in ev if k == 'set_multicast_ttl_v4' and a[0] is tx]
    if not ttl or ttl[-1].a[0] != 0:
        return 'datagrams may leave the host'
    if any(k == 'set_multicast_loop_v4' and a[0] is tx and a[1] is FALSE for k, a in ev):
        return 'datagrams do not come back to the host'
    for f in ('set_reuse_address', 'set_reuse_port'):
        o = sym('libc::SO_' + f[4:].upper().replace('_', '').replace('ADDRESS', 'ADDR'))
        s = [(p, TRUE if a[3].op == 'i' and a[3].a[0] == 1 else a[3]) for p, (k, a) in enumerate(ev) if k == 'option' and a[0] is rx and a[1] is sym('libc::SOL_SOCKET') and a[2] is o and p < i]
        s += [(p, a[1]) for p, (k, a) in enumerate(ev) if k == f and a[0] is rx and p < i]
        if not s or s[-1][1] is not TRUE:
            return 'a second process cannot bind the port (%s)' % f[4:]
    return None


@rule('C24', level='exploration', rule='the port registry is read and written only while its lock is held; an id found in it has its port; a new id is appended, keeping the rest, with a port above 10501 and all saved ports',
      trusted=['fslock', 'std::fs'])
def c24(ctx):
    mine = 0x8877665544332211
    mineb = nums(*[(mine >> 8 * i) & 255 for i in range(8)])
    runs, paths = 0, 0

    def check(key, what, content, bus_id, want=None, saved=(), old=None, error=None, table=True):
        """want: the port of the first entry of this id; otherwise a new one is added after old"""
        nonlocal runs, paths
        runs += 1
        I_, outs = go(ctx, PB + 'get_port', [bus_id], hook=Registry(content, error), table=table)
        bad = []
        good = 0
        for o in outs:
            paths += 1
            held, rd = False, False
            ev = events(o.st)
            for e in ev:
                k = kind(e)
                if k == 'lock':
                    held = True
                elif k == 'unlock':
                    held = False
                elif k in ('read', 'file write') and not held:
                    bad.append('the registry is used (%s) without its lock' % k)
                if k == 'read':
                    rd = True
                if k == 'file write' and not rd:
                    bad.append('the registry is written before it was read under the lock')
            fails = [kind(e) for e in ev if kind(e).endswith(' failed')]
            w = named(o.st, 'file write')
            lk, rp = named(o.st, 'lock file'), named(o.st, 'read')
            if any(contains(x[0], sym('bus')) or lk and x[0] is lk[0][0] for x in rp + w) or any(contains(x[0], sym('bus')) for x in lk) or len({x[0].id for x in rp + w}) > 1:
                bad.append('lock file and registry are not one fixed file each')
            if error not in (None, 'NotFound'):
                if w or o.kind == 'ret' and is_adt(o.v, 'Ok'):
                    bad.append('an unreadable registry is taken as empty')
                continue
            if o.kind == 'panic':
                if not fails:
                    bad.append('panic: ' + show_path(o)[:120])
                continue
            if not is_adt(o.v, 'Ok'):
                if not fails:
                    bad.append('an error without cause')
                continue
            good += 1
            p = o.st.norm(o.v.a[2][0])
            if table is None:
                continue
            if want is not None:
                if p.op != 'i' or p.a[0] != want:
                    bad.append('port %s instead of the saved %d' % (show(p), want))
                if w and not same_val(o.st.norm(w[-1][1]), content):
                    bad.append('the registry is changed though the id is known')
                continue
            if len(w) != 1:
                bad.append('the new entry is written %d times' % len(w))
                continue
            if p.op != 'i' or p.a[0] <= 10501 or any(p.a[0] <= x for x in saved) and p.a[0] != 65535:
                bad.append('port %s is not above 10501 and the saved ports %s' % (show(p), list(saved)))
                continue
            new = concat(old, eseq(mineb + nums(p.a[0] & 255, p.a[0] >> 8)))
            if not same_val(o.st.norm(w[0][1]), new):
                bad.append('the registry becomes %s' % show(w[0][1])[:160])
        ctx.ob(key, (good or error not in (None, 'NotFound')) and not bad, '%s: %s' % (what, bad[0] if bad else '%d paths' % len(outs)))

    me = I(mine, 'u64')
    e = eseq([])
    check('empty', 'an empty registry', e, me, old=e)
    check('missing', 'no registry', None, me, old=e, error='NotFound')
    check('unreadable', 'an unreadable registry', None, me, error='PermissionDenied')
    ports = [1, 255, 10501, 10502, 10757, 40000, 65534, 65535]
    near = [mine ^ (1 << k) for k in (0, 7, 8, 31, 32, 40, 63)]

    def rec(i, p):
        return [(i >> 8 * k) & 255 for k in range(8)] + [p & 255, p >> 8]

    import itertools
    for k in (1, 2) + ((3,) if ctx.thorough else ()):
        for ps in itertools.product(ports, repeat=k) if k < 3 else itertools.product(ports[1::2], repeat=k):
            t = [near[(sum(ps) + j) % len(near)] for j in range(k)]
            old = eseq(nums(*sum([rec(t[j], ps[j]) for j in range(k)], [])))
            check('new/%s' % '-'.join(map(str, ps)), 'another id with saved ports %s' % list(ps), old, me, saved=ps, old=old)
            for j in range(k):
                u = t[:j] + [mine] + t[j + 1:]
                c = eseq(nums(*sum([rec(u[i], ps[i]) for i in range(k)], [])))
                check('known/%s/%d' % ('-'.join(map(str, ps)), j), 'this id in entry %d of ports %s' % (j, list(ps)), c, me, want=ps[j])
    for i in near:
        old = eseq(nums(*rec(i, 20000)))
        check('id/%x' % i, 'an id that differs in one bit', old, me, saved=[20000], old=old)
    # the lock, for every content
    for k in range(0, 3):
        c = eseq(sum([u8syms('r%d_' % i, 10) for i in range(k)], []))
        check('lock/%d' % k, 'any %d entries and any id: the lock is held from the read to the write' % k, c, sym('bus'), table=None)
    ctx.floor('registries', runs, 100)
    ctx.floor('paths', paths, 300)
