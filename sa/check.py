#!/usr/bin/env python3
"""Runner: check.py PROPERTY [--tier quick|thorough]

Builds the MIR of /repo's current tree, runs the rule set registered for PROPERTY,
writes evidence/<PROPERTY>.json and reports violations (exit 1) / known findings (exit 0)."""
import sys, os, re, time, json, argparse, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import threading

RULES = {}          # property -> (fn, meta)
MODULES = ['crypto', 'abe_text', 'abe_eval', 'abe_funcs', 'abe_struct', 'bytefmt', 'ipcbus', 'pkt_space']


def rule(prop, **meta):
    def d(f):
        RULES[prop] = (f, meta)
        return f
    return d


# callees of these are part of what the properties speak about: code that starts to use another one of them is judged as it is
EXTERNAL = re.compile(r'\b(Sign\w*|Verify\w*|PrehashVerifier|Argon2\w*|Params\w*|Uint|Socket|socket|Domain|Protocol|Event\w*|LockFile|Hasher|Hash|'
                      r'Engine|GeneralPurpose\w*|blake3|k256|argon2|fslock|ABEValidator)\b')


def novel(prop, unknown):
    """std functions without a model that the code this check was built for does not call: whatever depends on them is unknown"""
    base = set(json.load(open(os.path.join(HERE, 'opaque.json'))).get(prop, []))
    return sorted(k for k in unknown if k not in base and not EXTERNAL.search(k))


class Missing(Exception):
    """an anchor the property is stated about no longer exists"""


class Ctx:
    def __init__(self, P, prop, tier):
        self.P, self.prop, self.tier = P, prop, tier
        self.obs = []           # (key, ok, detail, where)
        self.notes = {}
        self.functions = set()
        self.interps = []
        self.unknown = {}
        self.definite = set()
        self.thorough = tier == 'thorough'

    # -- anchors
    def fn(self, crate, name, nargs=None, required=True):
        """a function by its public (last) name, wherever its module is"""
        c = []
        for (cr, n), bs in self.P.bodies.items():
            if cr != crate or '{' in n or 'promoted[' in n:
                continue
            segs = split_path(n)
            if segs[-1] == name and not any(s.startswith('<') for s in segs[:-1]) and bs[0].kind=="fn":
                c.append((len(segs), n, bs[0]))
        c = [x for x in c if nargs is None or len(x[2].args) == nargs] or c
        if not c:
            if required:
                raise Missing('%s::%s' % (crate, name))
            return None
        return min(c)[2]

    def method(self, crate, path, required=True):
        r = self.P.resolve(crate, path)
        if r is None:
            if required:
                raise Missing('%s: %s' % (crate, path))
            return None
        return r

    def interp(self, **kw):
        from interp import Interp
        ex = kw.pop('extern', None)
        I = Interp(self.P, **kw)
        if ex:
            I.extern.update(ex)
        self.interps.append(I)
        return I

    def run(self, body, args, env=None, I=None, st=None, **kw):
        from dom import State
        I = I or self.interp(**kw)
        return I, I.run_body(body, env or {}, list(args), st or State(), None)

    # -- obligations
    def ob(self, key, ok, detail='', where='', definite=False):
        """definite: a failing case was decided without any function whose behaviour is unknown"""
        self.obs.append((key, bool(ok), detail, where))
        if definite and not ok:
            self.definite.add(key)
        return ok

    def sure(self, I):
        return not novel(self.prop, I.unknown)

    def floor(self, what, n, least):
        self.ob('floor/' + what, n >= least, '%d found, at least %d expected' % (n, least))


def split_path(n):
    import mirparse
    return mirparse.split_top(n, '::')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.time()
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, 'rules', m + '.py')):
            importlib.import_module('rules.' + m)
    fn, meta = RULES[a.prop]
    import build
    viol, ctx, undecided = [], None, []
    try:
        P = build.load(meta.get('build', 'built'))
        ctx = Ctx(P, a.prop, a.tier)
        fn(ctx)
    except build.BuildError as e:
        viol.append(('build', 'the tree does not compile: ' + str(e)[-600:], ''))
    except Missing as e:
        viol.append(('anchor/' + str(e), 'the construct this property is stated about was not found: ' + str(e), ''))
    except Exception as e:
        if a.verbose:
            traceback.print_exc()
        if type(e).__name__ == 'Unsupported':
            undecided.append('the interpreter does not cover this construct: ' + str(e)[:200])
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        viol.append(('analysis', 'the analysis could not establish the property: %s: %s (%s:%d)' % (
            type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno), ''))
    if ctx is not None:
        if not ctx.obs and not viol:
            viol.append(('empty', 'no obligation was generated', ''))
        for k, okk, d, w in ctx.obs:
            if not okk:
                viol.append((k, d, w))
    known = {}
    kf = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kf):
        for e in json.load(open(kf))['findings']:
            if e['property'] == a.prop:
                known[e['key']] = e
    new, old = [], []
    seen = set()
    for v in viol:
        if v[0] in seen:
            continue
        seen.add(v[0])
        (old if v[0] in known else new).append(v)
    wall = time.time() - t0
    visited = set()
    steps = calls = 0
    unknown = {}
    if ctx is not None:
        for I in ctx.interps:
            visited |= I.visited
            steps += I.steps
            calls += I.nsites
            for k, n in I.unknown.items():
                unknown[k] = unknown.get(k, 0) + n
    obs = ctx.obs if ctx else []
    nov = novel(a.prop, unknown)
    if new and nov:
        undecided.append('no model of the std functions ' + ', '.join(nov[:12]))
    if new and undecided:
        und = [v for v in new if v[0] != 'build' and not v[0].startswith('anchor/') and v[0] not in (ctx.definite if ctx else ())]
        new = [v for v in new if v not in und]
    else:
        und = []
    cov = {
        'obligations': len(obs),
        'discharged': sum(1 for o in obs if o[1]),
        'checker_cmd': 'python3-vt sa/check.py %s --tier %s' % (a.prop, a.tier),
        'trusted_base': ['rustc nightly-2023-11-04 MIR of the workspace (%s)' % ('official lock file' if meta.get('build', 'built') == 'built' else 'lock file Cargo.lock.pkt, triomphe::ThinArc replaced by a stub of its interface'),
                         'sa/interp.py, sa/dom.py (abstract interpreter) and sa/models.py (std model)'] + list(meta.get('trusted', [])),
        'explanation': meta.get('rule', ''),
        'rule': meta.get('rule', ''),
        'functions_analysed': sorted('%s::%s' % v for v in visited)[:400],
        'blocks_interpreted': steps, 'call_sites_interpreted': calls,
        'opaque_callees': dict(sorted(unknown.items())[:80]),
        'obligation_list': [{'key': k, 'ok': o, 'detail': d[:300], 'where': w} for k, o, d, w in obs][:300],
        'known_findings_reported': [v[0] for v in old],
    }
    if und:
        cov['undecided'] = {'because': undecided, 'obligations': [[k, d[:300]] for k, d, w in und[:50]]}
    if ctx:
        cov.update(ctx.notes)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': a.prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': meta.get('level', 'other'),
          'coverage': cov, 'wall_s': round(wall, 2)}
    p = os.path.join(VERIF, 'evidence', a.prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)
    for k, d, w in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (a.prop, k, d[:300]))
    for k, d, w in und:
        print('  undecided %s: %s %s' % (k, d[:300], w))
    if und:
        print('UNDECIDED %s: %s' % (a.prop, '; '.join(undecided)))
    for k, d, w in new:
        print('  violation %s: %s %s' % (k, d[:800], w))
    if a.verbose:
        for k, o, d, w in obs:
            print('   ', 'ok ' if o else 'BAD', k, d[:160], w)
    print('%s %s: %d obligations, %d discharged, %d functions, %d blocks, %.1fs' % (
        a.prop, a.tier, len(obs), sum(1 for o in obs if o[1]), len(visited), steps, wall))
    if new:
        print('VIOLATION property=%s replay=%s' % (a.prop, p))
        return 1
    return 0


if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(200000)
    rc = [1]

    def go():
        rc[0] = main()
    t = threading.Thread(target=go)
    t.daemon = True
    t.start()
    # a construct the interpreter does not converge on leaves the property undecided on this tree; the longest check of the
    # unchanged tree takes under a minute (thorough: a few minutes)
    t.join(float(os.environ.get('LINKSPACE_SA_LIMIT') or (3000 if 'thorough' in sys.argv else 500)))
    if t.is_alive():
        print('UNDECIDED: the analysis did not finish in time')
        rc[0] = 0
    sys.stdout.flush()
    os._exit(rc[0])
