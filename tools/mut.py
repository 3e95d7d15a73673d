"""Tries edits of /repo against the rules: mut.py FILE.py [NAME...]. FILE defines M = [(name, 'C01,C02' or 'all', file, old, new, expect)].
expect: True when some named property must report, False when all must stay quiet. Work happens in a scratch copy under /tmp."""
import importlib.util
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('m', sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
want = sys.argv[2:]
W = '/tmp/mutwork%d' % os.getpid()
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
shutil.copytree('/repo/src', W + '/src')
env = dict(os.environ, BALAU_REPO=W, BALAU_EVIDENCE='/tmp/mutevid')
bad = 0
for name, ids, fn, old, new, expect in m.M:
    if want and name not in want:
        continue
    edits = [(fn, old, new)] if isinstance(fn, str) else fn
    saved = {}
    ok = True
    for f, o, n in edits:
        p = W + '/src/main/cpp/Balau/' + f
        s = open(p).read()
        saved.setdefault(p, s)
        if o not in s:
            print('%-28s NOT FOUND in %s' % (name, f))
            ok = False
            break
        open(p, 'w').write(s.replace(o, n, 1) if o else s + n)
    if ok:
        files = sorted({f for f, _, _ in edits})
        tus = getattr(m, 'TUS', ['instantiate_core']) + [os.path.basename(f).split('.')[0] for f in files]
        if not os.environ.get('FULL'):
            env['BALAU_STALE'] = '|'.join(tus)
            env['BALAU_EDITED'] = ','.join('Balau/' + f for f in files)
        r = subprocess.run([sys.executable, V + '/rules/check.py'] + ids.split(','), capture_output=True, text=True, env=env)
        v = [l for l in r.stdout.splitlines() if not l.startswith(('KNOWN', 'VIOLATION'))]
        good = (r.returncode == 1) == expect and r.returncode in (0, 1)
        bad += not good
        print('%-28s rc=%d %s' % (name, r.returncode, 'ok' if good else '<<<<<<<< UNEXPECTED'), ('' if good and not os.environ.get('V') else [x[:300] for x in v[:4]] + [r.stderr[-300:]]))
    for p, s in saved.items():
        open(p, 'w').write(s)
shutil.rmtree(W, ignore_errors=True)
print('unexpected:', bad)
