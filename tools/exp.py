#!/usr/bin/env python3
"""Exploration helper: exp.py FILE [-r] [-t SEC] [-F flag]... entry[:k=v[,k=v]] ...   compile once, run the entries, print counterexamples."""
import sys, os, subprocess, json, glob, struct, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; f = a.pop(0); mode = '--ieee'; T = '120'; fl = []; es = []; procs = '8'; lim = 8
while a:
    x = a.pop(0)
    if x == '-r': mode = '--real'
    elif x == '-t': T = a.pop(0)
    elif x == '-p': procs = a.pop(0)
    elif x == '-n': lim = int(a.pop(0))
    elif x == '-F': fl.append(a.pop(0))
    else: es.append(x)
CF = '-std=c++17 -O1 -g1 -fno-vectorize -fno-slp-vectorize -mllvm -speculate-one-expensive-inst=false -mllvm -two-entry-phi-node-folding-threshold=3 -D_GLIBCXX_EXTERN_TEMPLATE=0 -D_GLIBCXX_ASSERTIONS -w'.split()
W = f'/tmp/exp.{os.getpid()}'; os.makedirs(W)
r = subprocess.run(['clang++'] + CF + [f'-I{V}/rt/shim', f'-I{V}/rt', f'-I{V}/harness', '-I/repo', '-I/repo/legacy/Fierro_V0/src/Yaml-Serializable/include'] + fl + ['-c', '-emit-llvm', f, '-o', W + '/h.bc'], capture_output=True, text=True)
if r.returncode: print(r.stderr[:2500]); sys.exit(1)
subprocess.check_call(['llvm-link-18', W + '/h.bc', V + '/build/rt.bc', '-o', W + '/l.bc'])
for e in es:
    e, _, ps = e.partition(':'); ps = [x for x in ps.split(',') if x]; o = f'{W}/{e}'; os.makedirs(o, exist_ok=True)
    cmd = [V + '/build/llsym', W + '/l.bc', '--entry', e, mode, '--out', o, '--procs', procs, '--max-viol', '60', '--time', T] + sum([['--param', p] for p in ps], [])
    t = time.time(); r = subprocess.run(cmd, capture_output=True, text=True); p = 0; v = []; inc = set(); ends = {}; cov = {}; tot = {}
    if r.returncode or r.stdout or os.environ.get("LLSYM_SLOWQ"): print(r.returncode, (r.stdout + r.stderr)[-int(os.environ.get("OUTN","500")):])
    for fn in glob.glob(o + '/res.*.json'):
        try: d = json.load(open(fn))
        except ValueError: continue
        p += d.get('paths', 0); v += d.get('violations', []); inc |= set(d['inconclusive'])
        for k in ('steps', 'checks', 'queries', 'solver_s', 'poly_zero'): tot[k] = round(tot.get(k, 0) + d.get(k, 0), 1)
        for m, k in ((ends, 'ends'), (cov, 'covers')):
            for x, n in d.get(k, {}).items(): m[x] = m.get(x, 0) + n
    print(f'== {e} {ps} {time.time()-t:.1f}s paths', p, tot, ends, cov)
    for i in sorted(inc)[:10]: print('   INC', i)
    seen = set(); n = 0
    for x in v:
        if (x['msg'], x['loc']) in seen: continue
        seen.add((x['msg'], x['loc'])); n += 1
        if n > lim: break
        ins = []
        for l in x['inputs'].strip().split('\n'):
            w = l.split()
            if len(w) >= 3:
                if w[0] == 'i': q = int(w[1]); ins.append(w[2] + '=' + (repr(chr(q)) if 32 <= q < 127 else str(q if q < 2**63 else q - 2**64)))
                else: ins.append(w[2] + '=%r' % struct.unpack('>d', bytes.fromhex(w[1].zfill(16)))[0])
        print('  ', x['kind'], '|', x['msg'], '|', x['loc'], '|', ' '.join(ins)[:600])
shutil.rmtree(W)
