#!/usr/bin/env python3
"""mkseed: writes /verif/seeded/<id>/ from a description.
   seed(id, prop, [(file, old, new)...], needs, breaks, demo_rs)"""
import os, re, subprocess, json, shutil
DEPS = {
    'abe': 'abe = { path = "$repo/crates/abe" }',
    'byte_fmt': 'byte-fmt = { path = "$repo/crates/byte-fmt" }',
    'linkspace_cryptography': 'linkspace-cryptography = { path = "$repo/crates/cryptography" }',
    'linkspace_argon2_identity': 'linkspace-argon2-identity = { path = "$repo/crates/argon2-identity" }',
    'ipcbus': 'ipcbus = { path = "$repo/crates/ipcbus" }',
    'argon2': 'rust-argon2 = { version = "2.0.0", default-features = false }',
}
R, V = '/repo', '/verif'


def sh(*a):
    return subprocess.run(a, cwd=R, check=True, stdout=subprocess.PIPE, text=True).stdout


def seed(id, prop, edits, needs, breaks, demo):
    assert not sh('git', 'status', '--porcelain'), 'dirty'
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(old) == 1, (id, f, old, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git', 'diff'))
    finally:
        sh('git', 'checkout', '-q', '--', '.')
    open(os.path.join(d, 'demo.rs'), 'w').write(demo)
    deps = [v for k, v in DEPS.items() if re.search(r'\b%s::' % k, demo)]
    t = open(os.path.join(V, 'tools', 'demo_template.sh')).read().replace('@DEPS@', '\n'.join(deps))
    open(os.path.join(d, 'demo.sh'), 'w').write(t)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
