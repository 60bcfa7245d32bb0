#!/usr/bin/env python3
"""mut.py FILE: try ad-hoc mutations in a scratch copy of /repo. FILE defines M = [(name, props, [(file, old, new)...])]."""
import sys, os, subprocess, shutil, json
D = '/tmp/mutrepo%s' % os.environ.get('N', '')
B = '/tmp/mutbuild%s' % os.environ.get('N', '')
if not os.path.isdir(D):
    subprocess.run(['git', 'clone', '-q', '/repo', D], check=True)
    os.makedirs(B, exist_ok=True)
subprocess.run(['git', '-C', D, 'fetch', '-q'], check=True)
subprocess.run(['git', '-C', D, 'reset', '-q', '--hard', 'origin/HEAD'], check=True)
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
env = dict(os.environ, LINKSPACE_SA_LIMIT=os.environ.get('LINKSPACE_SA_LIMIT', '90'), LINKSPACE_REPO=D, LINKSPACE_SA_BUILD=B)
for name, props, edits in ns['M']:
    if want and name not in want:
        continue
    subprocess.run(['git', '-C', D, 'reset', '-q', '--hard'], check=True)
    good = True
    for f, old, new in edits:
        t = open(os.path.join(D, f)).read()
        if t.count(old) != 1:
            print(name, 'EDIT FAILS', f, t.count(old), repr(old)[:60])
            good = False
            continue
        open(os.path.join(D, f), 'w').write(t.replace(old, new))
    if not good:
        continue
    res = []
    for p in props.split():
        r = subprocess.run(['python3-vt', '/verif/sa/check.py', p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l.strip()[10:] for l in r.stdout.splitlines() if l.startswith('  violation')]
        und = ' '.join(l[10:] for l in r.stdout.splitlines() if l.startswith('UNDECIDED'))[:160]
        res.append('%s=%d%s%s' % (p, r.returncode, und and ' {U %s}' % und, ' [%s]' % ' | '.join(x[:int(os.environ.get('W', '110'))] for x in v[:3]) if v else ''))
    print(name, ' '.join(res), flush=True)
