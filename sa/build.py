"""Builds the MIR of /repo's current working tree with the repository's own pinned
toolchain and loads it into a Program.  Nothing is executed: `cargo check` type-checks
the crates and the compiler writes the MIR of every body."""
import os, sys, hashlib, subprocess, shutil, glob, fcntl, re, pickle, time
import mirparse, program

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('LINKSPACE_REPO', '/repo')
BUILD = os.environ.get('LINKSPACE_SA_BUILD', os.path.join(VERIF, '.build'))

TOOLCHAIN = 'nightly-2023-11-04'
# package directory -> crate (lib) name
CRATES = {
    'abe': 'abe', 'byte-fmt': 'byte_fmt', 'cryptography': 'linkspace_cryptography',
    'argon2-identity': 'linkspace_argon2_identity', 'ipcbus': 'ipcbus',
}


# linkspace-pkt needs one package that is not available offline; it is compiled against a stand-in (sa/stubs)
PKT = {'abe': 'abe', 'byte-fmt': 'byte_fmt', 'cryptography': 'linkspace_cryptography', 'pkt': 'linkspace_pkt'}


class BuildError(Exception):
    pass


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.sh', '.py', '.lock', '.built', '.txt', '.md')):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode() + b'\0')
                    h.update(open(p, 'rb').read())
    for f in ('build.py', 'rustc_wrap.sh', 'mirparse.py', 'Cargo.lock.built', 'Cargo.lock.pkt', 'stubs/triomphe/src/lib.rs', 'shim/shim.mir'):
        h.update(open(os.path.join(HERE, f), 'rb').read())
    return h.hexdigest()[:24]


def workspace_toml(members):
    text = open(os.path.join(REPO, 'Cargo.toml')).read()
    mem = 'members = [\n' + ''.join('    "crates/%s",\n' % c for c in members) + ']\n'
    text, n = re.subn(r'^members\s*=\s*\[.*?\]\s*?\n', lambda _: mem, text, count=1, flags=re.S | re.M)
    if n != 1:
        raise BuildError('no workspace members in Cargo.toml')
    return text


def env(mir, base):
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             RUSTC_WRAPPER='', RUSTC_WORKSPACE_WRAPPER=os.path.join(HERE, 'rustc_wrap.sh'), MIR_OUT=mir,
             RUSTFLAGS='-Zalways-encode-mir', CARGO_TARGET_DIR=os.path.join(base, 'target'), CARGO_INCREMENTAL='0')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.pop('CARGO_ENCODED_RUSTFLAGS', None)
    return e


def link(src, dst):
    if os.path.islink(dst):
        os.unlink(dst)
    elif os.path.isdir(dst):
        shutil.rmtree(dst)
    os.symlink(src, dst)


def pkt_manifest():
    t = open(os.path.join(REPO, 'crates', 'pkt', 'Cargo.toml')).read()
    t = re.sub(r'^\[(dev-dependencies|target\..*?)\]\n(?:(?!\[).*\n?)*', '', t, flags=re.M)
    return re.sub(r'^triomphe\s*=.*$', lambda _: 'triomphe = { path = "%s" }' % os.path.join(HERE, 'stubs', 'triomphe'), t, flags=re.M)


def build_mir(kind='built'):
    """-> directory holding <crate>.mir for the current tree"""
    crates = PKT if kind == 'pkt' else CRATES
    base = os.path.join(BUILD, 'pkt') if kind == 'pkt' else BUILD
    os.makedirs(base, exist_ok=True)
    with open(os.path.join(base, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash([os.path.join(REPO, 'crates', c) for c in crates] )
        h = hashlib.sha256((h + workspace_toml(crates)).encode()).hexdigest()[:24]
        out = os.path.join(base, 'mir', h)
        if os.path.exists(os.path.join(out, 'OK')):
            return out
        shutil.rmtree(os.path.join(base, 'mir'), ignore_errors=True)
        os.makedirs(out)
        ws = os.path.join(base, 'ws')
        os.makedirs(os.path.join(ws, 'crates'), exist_ok=True)
        open(os.path.join(ws, 'Cargo.toml'), 'w').write(workspace_toml(crates))
        shutil.copy(os.path.join(HERE, 'Cargo.lock.' + kind), os.path.join(ws, 'Cargo.lock'))
        for c in crates:
            p = os.path.join(ws, 'crates', c)
            if c != 'pkt':
                link(os.path.join(REPO, 'crates', c), p)
                continue
            os.makedirs(p, exist_ok=True)
            link(os.path.join(REPO, 'crates', c, 'src'), os.path.join(p, 'src'))
            open(os.path.join(p, 'Cargo.toml'), 'w').write(pkt_manifest())
        # cargo's freshness cache would skip the wrapper: forget the workspace crates
        for name in list(crates) + list(crates.values()) + ['linkspace-cryptography', 'linkspace-argon2-identity', 'linkspace-pkt']:
            for p in glob.glob(os.path.join(base, 'target', 'debug', '.fingerprint', name + '-*')):
                shutil.rmtree(p, ignore_errors=True)
        r = subprocess.run(['cargo', 'check', '--workspace', '--lib', '--offline', '--quiet'], cwd=ws, env=env(out, base),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        missing = [c for c in crates.values() if not os.path.exists(os.path.join(out, c + '.mir'))]
        if r.returncode or missing:
            raise BuildError('cargo check failed (%s) missing=%s\n%s' % (r.returncode, missing, r.stdout[-4000:]))
        open(os.path.join(out, 'OK'), 'w').write('ok')
        return out


def load(kind='built'):
    out = build_mir(kind)
    crates = PKT if kind == 'pkt' else CRATES
    pk = os.path.join(out, 'program.pickle')
    P = program.Program([os.path.join(BUILD, 'pkt', 'ws') if kind == 'pkt' else os.path.join(BUILD, 'ws'), REPO],
                        {n: os.path.join(REPO, 'crates', d) for d, n in crates.items()})
    parsed = None
    if os.path.exists(pk):
        try:
            parsed = pickle.load(open(pk, 'rb'))
        except Exception:
            parsed = None
    if parsed is None:
        parsed = {c: mirparse.parse_file(os.path.join(out, c + '.mir'), c) for c in crates.values()}
        parsed['shim'] = mirparse.parse_file(os.path.join(HERE, 'shim', 'shim.mir'), 'shim')
        tmp = pk + '.%d' % os.getpid()
        pickle.dump(parsed, open(tmp, 'wb'), protocol=4)
        os.replace(tmp, pk)
    for c, (b, a) in parsed.items():
        P.add(c, b, a)
        if c in P.crate_dirs:
            P.scan_types(c, P.crate_dirs[c])
    return P


if __name__ == '__main__':
    t = time.time()
    P = load()
    print('loaded', len(P.bodies), 'bodies in %.1fs' % (time.time() - t))
    try:
        P = load('pkt')
        print('loaded', len(P.bodies), 'bodies with linkspace-pkt in %.1fs' % (time.time() - t))
    except BuildError as e:
        # only the checks of that crate need it, and they report it
        print('linkspace-pkt: ' + str(e)[-2000:])
