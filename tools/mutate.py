#!/usr/bin/env python3
# plants random small changes (operators, constants, indices) in the files of a property and reports which its check misses
import sys, os, re, random, subprocess, time, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import specs
R = os.environ.get('MUT_REPO', '/tmp/mut/repo'); pid = sys.argv[1]; N = int(sys.argv[2]); rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1); only = sys.argv[4] if len(sys.argv) > 4 else None
subs = [(r'(?<=[\w)\]] )\+(?= [\w(])', '-'), (r'(?<=[\w)\]] )-(?= [\w(])', '+'), (r'(?<=[\w)\]] )\*(?= ?[\w(])', '+'), (r'(?<=[\w)\]])\*(?=[\w(])', '/'), (r'\+=', '-='), (r'\+=', '='), (r' <= ', ' < '), (r' < (?=\w)', ' <= '), (r' >= ', ' > '), (r' > ', ' >= '), (r' == ', ' != '), (r' != ', ' == '), (r'&&', '||'), (r'\|\|', '&&'), (r'\b0\.5\b', '0.25'), (r'\b1\.0\b', '2.0'), (r'\b0\.0\b', '1.0'), (r'(?<=[(,] )0(?=[,)])', '1'), (r'\b1\b(?!\.)', '2'), (r'\b2\b(?!\.)', '1'), (r'\b0\b(?![.x])', '1'), (r'fmin', 'fmax'), (r'fmax', 'fmin'), (r'\(i, ?j\)', '(j, i)'), (r'\(j, ?i\)', '(i, j)'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bi\b(?=\))', 'j'), (r'\bmat_point_sid\b', 'elem_gid'), (r'\belem_gid\b', 'mat_elem_sid'), (r'_n0\b(?=\()', ''), (r'\+\+', '--'), (r'\bcontinue;', ';'), (r'\bbreak;', ';')]
files = [f for f in specs.SPECS[pid]['files'] if os.path.isfile(R + '/' + f)]
if only: files = [f for f in files if only in f]
cand = []
for f in files:
    t = open(R + '/' + f, encoding='latin1', newline='').read().split('\n'); com = False
    for i, l in enumerate(t):
        s = l.strip()
        if s.startswith('/*'): com = True
        if com: com = '*/' not in s; continue
        if s.startswith(('//', '#', '*', 'std::cout', 'printf', 'using', 'for (', 'for(')) and not s.startswith('for') or not s: continue
        code = l.split('//')[0]
        for a, b in subs:
            for m in re.finditer(a, code): cand.append((f, i, m.start(), m.end(), b))
rnd.shuffle(cand); print(pid, len(cand), 'candidates', flush=True)
done = 0
for f, i, a, b, new in cand:
    if done >= N: break
    p = R + '/' + f; old = open(p, encoding='latin1', newline='').read(); L = old.split('\n'); was = L[i]; L[i] = was[:a] + new + was[b:]
    open(p, 'w', encoding='latin1', newline='').write('\n'.join(L)); t0 = time.time()
    for q in [pid] + [x for x in specs.SPECS if x != pid and f in specs.SPECS[x]['files']]:
        try:
            r = subprocess.run(['nice', 'python3', 'check.py', q], env=dict(os.environ, FSX_REPO=R), capture_output=True, text=True, timeout=1000); out = r.stdout + r.stderr; rc = r.returncode
        except subprocess.TimeoutExpired: rc = 'T'; out = ''
        if rc != 0: break
    open(p, 'w', encoding='latin1', newline='').write(old)
    if rc == 2 and 'error:' in out: continue   # does not compile
    done += 1; kind = 'KILL' if rc == 1 else 'MISS' if rc == 0 else 'OTHER'; inc = sum('inconclusive' in x.lower() for x in out.split('\n'))
    print(f'{kind} rc={rc} inc={inc} {time.time()-t0:.0f}s {f}:{i+1}\n   - {was.strip()[:150]}\n   + {L[i].strip()[:150]}' + ('' if rc in (0, 1) else '\n   ' + '\n   '.join(x[:300] for x in out.strip().split('\n')[-6:])), flush=True)
