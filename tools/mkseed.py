#!/usr/bin/env python3
"""mkseed.py SEEDFILE.py [--nocheck]: SEEDFILE defines id, property, edits=[(file, old, new)], demo (text of demo.sh), files={name: text}, needs, what.
Makes /verif/seeded/<id>, confirms build, stable tests, demo both ways and runs the property's check on the patched tree; /repo is restored."""
import re, sys, os, subprocess, json, runpy, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get('SEED_REPO', '/repo')
s = runpy.run_path(sys.argv[1]); D = (V + '/seeded/' if R == '/repo' else '/tmp/seedtry/') + s['id']; os.makedirs(D, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
assert not sh(f'git -C {R} status --short').stdout.strip(), 'repo not clean'
for n, t in {**s.get('files', {}), 'demo.sh': s['demo']}.items(): open(f'{D}/{n}', 'w').write(t)
os.chmod(D + '/demo.sh', 0o755); json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(D + '/meta.json', 'w'), indent=1)
def tests():
    if R != '/repo': return dict(passed=[], failed='not run')
    b = sh('bash /opt/vp/build.sh'); assert b.returncode == 0, b.stdout[-1500:]
    sh('bash /opt/vp/test.sh /tmp/seed_t.json'); d = json.load(open('/tmp/seed_t.json')); base = json.load(open('/opt/vp/BASELINE.json')); return d
def demo(): r = sh(f'bash {D}/demo.sh', cwd=R, timeout=300); return r.returncode, r.stdout[-600:]
try:
    tests(); rc0, o0 = demo()
    for f, a, b, *k in s['edits']:
        t = open(f"{R}/{f}", newline="", encoding="latin1").read(); crlf = "\r\n" in t; a, b = (a.replace("\n", "\r\n"), b.replace("\n", "\r\n")) if crlf else (a, b); n = k[0] if k else 0; assert t.count(a) > n and (k or t.count(a) == 1), (f, a, t.count(a)); i = [m.start() for m in re.finditer(re.escape(a), t)][n]; open(f"{R}/{f}", "w", newline="", encoding="latin1").write(t[:i] + b + t[i + len(a):])
    p = subprocess.run(f'git -C {R} diff', shell=True, stdout=subprocess.PIPE).stdout; open(D + '/patch.diff', 'wb').write(p)
    d = tests(); bad = d.get('failed'); rc1, o1 = demo()
    print(f"{s['id']}: demo clean={rc0} patched={rc1} tests passed={len(d['passed'])} failed={bad}"); print('  clean:', o0.strip()[-300:]); print('  patched:', o1.strip()[-300:])
    if '--nocheck' not in sys.argv:
        for c in [s['property']] + s.get('also', []):
            t = time.time(); r = sh(f'FSX_REPO={R} python3 {V}/check.py {c} --tier quick', cwd=V); print(f'  check {c}: exit {r.returncode} {time.time()-t:.0f}s'); print('   ', '\n    '.join(l[:260] for l in r.stdout.split('\n') if 'VIOLATION' in l or l.startswith('  h_') or 'UNREP' in l or 'MISM' in l or 'ERROR' in l or 'VAC' in l)[:1500])
finally:
    sh(f'git -C {R} checkout -- .'); sh('bash /opt/vp/build.sh') if R == '/repo' else None
