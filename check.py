#!/usr/bin/env python3
"""Decides one property: compiles the harness against /repo's current sources, executes it symbolically with llsym,
replays counterexamples and sampled paths natively, writes evidence/<ID>.json.
usage: check.py ID [--tier quick|thorough] [--strict] [--only ENTRY] [--keep]
exit 0 held / known findings only; 1 violation; 2 the check itself failed."""
import sys, os, json, subprocess, time, glob, shutil, re, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('FSX_REPO', '/repo')
sys.path.insert(0, V)
CF = '-std=c++17 -O1 -g1 -fno-vectorize -fno-slp-vectorize -mllvm -speculate-one-expensive-inst=false -mllvm -two-entry-phi-node-folding-threshold=3 -D_GLIBCXX_EXTERN_TEMPLATE=0 -D_GLIBCXX_ASSERTIONS -w'.split()
NCPU = min(8, os.cpu_count() or 1)

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
def die(msg): print('CHECK-ERROR: ' + msg); sys.exit(2)

def known_findings(pid):
    out = []
    fn = V + '/known_findings.txt'
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith('known:'):
                d = {}
                parts = [x.strip() for x in l[6:].split(' | ')]
                for x in parts[:-1]:
                    k, v = x.split('=', 1); d[k] = v
                d['what'] = parts[-1]
                if d['property'] == pid: out.append(d)
    return out

class Native:
    def __init__(self, B, spec, unit, src, flags):
        self.B, self.spec, self.unit, self.src, self.flags, self.bin = B, spec, unit, src, flags, {}
    def build(self, kind):
        if kind in self.bin: return self.bin[kind]
        o = f'{self.B}/native_{kind}{self.unit}'
        san = {'asan': ['-fsanitize=address'], 'pattern': ['-ftrivial-auto-var-init=pattern']}.get(kind, []); lib = 'asan' if kind == 'asan' else 'plain'
        cmd = ['clang++', '-std=c++17', '-O1', '-g1', '-w', '-D_GLIBCXX_ASSERTIONS', '-DFSX_NATIVE', '-rdynamic', f'-I{V}/rt', f'-I{V}/harness'] + san + self.flags + [V + '/harness/' + self.src, f'{V}/build/native_{lib}.o', '-o', o, '-ldl', '-Wl,--unresolved-symbols=ignore-all'] + self.spec.get('native_libs', [])
        r = sh(cmd)
        if r.returncode: raise RuntimeError('native harness does not compile:\n' + r.stdout[-3000:])
        self.bin[kind] = o; return o
    def run(self, kind, entry, infile, params, real, timeout=25, valgrind=False):
        cwd = f'{self.B}/cwd.{os.path.basename(infile)}.{kind}'; os.makedirs(cwd, exist_ok=True)
        cmd = [self.bin[kind], entry, infile] + (['--real'] if real else []) + [f'{k}={v}' for k, v in params.items()]
        if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=99'] + cmd; timeout = 240
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0:detect_stack_use_after_return=0')
        try: r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, errors='replace', timeout=timeout); return r.returncode, r.stdout
        except subprocess.TimeoutExpired: return 'timeout', ''
        finally: shutil.rmtree(cwd, ignore_errors=True)

def main():
    a = sys.argv[1:]; pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); strict = '--strict' in a
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    only = a[a.index('--only') + 1] if '--only' in a else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from specs import SPECS
    spec = SPECS[pid]; t0 = time.time()
    r = sh(['make', '-s', '-j8', '-C', V]);
    if r.returncode: die('framework build failed:\n' + r.stdout[-3000:])
    B = f'{V}/build/{pid}'; shutil.rmtree(B, ignore_errors=True); os.makedirs(B)
    sub = lambda fl: [f.replace('@REPO@', REPO).replace('@V@', V) for f in fl]
    runs = [r for r in spec['runs'] if only in (None, r['entry'])]
    if tier == 'quick': runs = [r for r in runs if not r.get('thorough_only')]
    # ---- encode: the real sources, to LLVM bitcode, linked with the runtime model; one unit per harness source and variant
    units = {}
    for r in runs: units.setdefault((r.get('src', spec['src']), r.get('variant', '')), len(units))
    nats = {}
    def compile_unit(kv):
        (src, var), u = kv; fl = sub(spec.get('flags', []) + (spec['variants'][var] if var else []))
        r = sh(['clang++'] + CF + [f'-I{V}/rt/shim', f'-I{V}/rt', f'-I{V}/harness'] + fl + ['-c', '-emit-llvm', f'{V}/harness/{src}', '-o', f'{B}/h{u}.bc'])
        if r.returncode: return f'harness {src} {var} does not compile against the current tree:\n' + r.stdout[-3000:]
        r = sh(['llvm-link-18', f'{B}/h{u}.bc', f'{V}/build/rt.bc', '-o', f'{B}/l{u}.bc'])
        if r.returncode: return 'link: ' + r.stdout[-2000:]
        nats[u] = Native(B, spec, u, src, fl)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(compile_unit, units.items()):
            if e: die(e)
    unit_of = lambda r: units[(r.get('src', spec['src']), r.get('variant', ''))]
    pool = cf.ThreadPoolExecutor(spec.get('par', 4)); natf = [pool.submit(n.build, 'asan') for n in nats.values()]
    npar = min(len(runs), spec.get('par', 4))
    def one(ix_run):
        ix, run = ix_run
        q = run.get('quick', {}); t = dict(q); t.update(run.get('thorough', {})) if tier == 'thorough' else None
        params = t.get('params', {}); tl = t.get('time', 240 if tier == 'quick' else 2400)
        out = f'{B}/o{ix}'; os.makedirs(out)
        cmd = [f'{V}/build/llsym', f'{B}/l{unit_of(run)}.bc', '--entry', run['entry'], '--real' if run.get('real') else '--ieee', '--out', out, '--procs', str(run.get('procs', max(2, NCPU // npar))), '--time', str(tl), '--tests', str(run.get('tests', 12)), '--repo', REPO + '/', '--max-viol', '24', '--max-steps', str(t.get('max_steps', run.get('max_steps', 20000000))), '--qtimeout', str(t.get('qtimeout', 60000))]
        for k, v in params.items(): cmd += ['--param', f'{k}={v}']
        w0 = time.time()
        try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=tl + 200)
        except subprocess.TimeoutExpired: return dict(run=run, params=params, err='engine did not stop', m=None)
        if p.returncode: return dict(run=run, params=params, err=f'engine exit {p.returncode}: {p.stdout[-1500:]}', m=None)
        m = dict(ends={}, covers={}, check_msgs={}, inconclusive=set(), violations=[], tests=[], functions=set(), lines={})
        for f in glob.glob(out + '/res.*.json'):
            d = json.load(open(f))
            for k, v in d.items():
                if k in ('ends', 'covers', 'check_msgs'):
                    for x, n in v.items(): m[k][x] = m[k].get(x, 0) + n
                elif k in ('inconclusive', 'functions'): m[k] |= set(v)
                elif k in ('violations', 'tests'): m[k] += v
                elif k == 'lines':
                    for x, n in v.items(): m[k].setdefault(x, set()).update(n)
                elif k in ('max_query_s', 'wall'): m[k] = max(m.get(k, 0), v)
                else: m[k] = m.get(k, 0) + v
        return dict(run=run, params=params, err=None if 'paths' in m else 'no result: ' + p.stdout[-800:], m=m, wall=round(time.time() - w0, 2))
    with cf.ThreadPoolExecutor(npar) as ex: res = list(ex.map(one, enumerate(runs)))
    errs = [f"{x['run']['entry']}: {x['err']}" for x in res if x['err']]
    if errs: die('\n'.join(errs))
    try:
        for f in natf: f.result()
    except RuntimeError as e: die(str(e))
    known = known_findings(pid); hit = set(); undecided = []; unrep = []; viol = []; validated = 0; mism = []; samples = []
    import random; rng = random.Random(seed)
    for ri, x in enumerate(res):
        run, m = x['run'], x['m']; e = run['entry']; real = bool(run.get('real')); nat = nats[unit_of(run)]; lab = e + ('@' + run['variant'] if run.get('variant') else '')
        undecided += [f'{lab}: {s}' for s in sorted(m['inconclusive'])]
        seen = set()
        for v in m['violations']:
            key = (v['kind'], v['msg'], v['loc'])
            if key in seen or len(seen) > 20: continue
            seen.add(key)
            d = f'{B}/viol{len(viol) + len(unrep)}_{e}'; os.makedirs(d, exist_ok=True); inf = d + '/inputs.txt'
            open(inf, 'w').write(v['inputs'])
            if v['kind'] == 'uninitialised':
                nat.build('plain'); rc, o = nat.run('plain', e, inf, x['params'], real, valgrind=True); ok = rc == 99
                how = f'valgrind -q --error-exitcode=99 {nat.bin["plain"]}'
            else:
                rc, o = nat.run('asan', e, inf, x['params'], real); how = nat.bin['asan']
                ok = rc == 'timeout' if v['kind'] == 'hang' else rc not in (0, 2, 77, 78) or 'FAIL ' in o
                if not ok and v['kind'] != 'hang':   # a value never set may have been harmless by chance: once more with such values filled
                    nat.build('pattern'); rc2, o2 = nat.run('pattern', e, inf, x['params'], real)
                    if rc2 not in (0, 2, 77, 78, 'timeout') or 'FAIL ' in o2: ok, rc, o, how = True, rc2, o2, nat.bin['pattern']
            ps = ' '.join(f'{k}={w}' for k, w in x['params'].items())
            open(d + '/replay.sh', 'w').write(f'#!/bin/sh\n# {v["kind"]}: {v["msg"]}\n# at {v["loc"]}\ncd {d} && exec {how} {e} {inf} {"--real" if real else ""} {ps}\n'); os.chmod(d + '/replay.sh', 0o755)
            open(d + '/report.txt', 'w').write(f'{v["kind"]}: {v["msg"]}\nat {v["loc"]}\n{v["stack"]}\ninputs:\n{v["inputs"]}\nnative replay: {rc}\n{o[-3000:]}\n')
            if not ok: unrep.append((lab, v, d, rc)); continue
            k = next((k for k in known if k['entry'] in (e, lab) and k['kind'] == v['kind'] and k['msg'] == v['msg'] and k.get('at', '') in v['loc']), None)
            if k: hit.add(known.index(k)); continue
            viol.append((lab, v, d))
        tests = list(m['tests']); rng.shuffle(tests); tests = tests[:run.get('ntests', 24)]
        def tv(t):
            i, t = t; fn = f'{B}/t{ri}_{i}.txt'; open(fn, 'w').write(t)
            rc, o = nat.run('asan', e, fn, x['params'], real); want = t.split('--\n', 1)[1].split('\n') if '--\n' in t else []
            got = [l for l in o.split('\n') if re.match(r'\S+ [id] \S+$', l)]
            return t, rc, [w for w in want if w], got, o, fn
        with cf.ThreadPoolExecutor(NCPU) as ex: tvs = list(ex.map(tv, enumerate(tests)))
        for t, rc, want, got, o, fn in tvs:
            if rc == 'timeout' or rc not in (0, 77): 
                d = f'{B}/viol{len(viol) + len(unrep)}_{e}'; os.makedirs(d, exist_ok=True); shutil.copy(fn, d + '/inputs.txt')
                v = dict(kind='native', msg='the compiled code fails on an explored path: ' + str(rc) + ' ' + o.strip()[-300:].replace('\n', ' / '), loc=''); ps = ' '.join(f'{k}={w}' for k, w in x['params'].items())
                open(d + '/replay.sh', 'w').write(f'#!/bin/sh\ncd {d} && exec {nat.bin["asan"]} {e} {d}/inputs.txt {ps}\n'); os.chmod(d + '/replay.sh', 0o755)
                if real: mism.append(f'{lab}: native run of an explored path failed ({rc}) {o[-200:]}')
                else: viol.append((lab, v, d))
            elif real:
                if rc == 0: validated += 1
            else:
                if rc == 77: mism.append(f'{lab}: assumption differs natively: {o[-200:]} [{fn}]')
                elif len(want) == len(got) and all(w == g for w, g in zip(want, got)): validated += 1
                else:
                    j = next((j for j in range(min(len(want), len(got))) if want[j] != got[j]), min(len(want), len(got)))
                    mism.append(f'{lab}: observation {j} differs: model {want[j:j+1]} native {got[j:j+1]} ({len(want)}/{len(got)}) [{fn}]')
        for t in tests[:2]: samples.append({'entry': lab, 'path_inputs': ' '.join(l.split(' ', 1)[1] if ' ' in l else l for l in t.split('--\n')[0].strip().split('\n'))[:600]})
    need = [(x['run']['entry'], x['run'].get('variant', ''), c) for x in res for c in x['run'].get('covers', []) if not x['m']['covers'].get(c)]
    nochk = [x['run']['entry'] for x in res if not x['m'].get('checks') and not x['run'].get('nochecks')]
    S = lambda k: sum(x['m'].get(k, 0) for x in res)
    fns = sorted(set().union(*[x['m']['functions'] for x in res])) if res else []
    lines = {}
    for x in res:
        for f, n in x['m']['lines'].items(): lines.setdefault(f, set()).update(n)
    for i, k in enumerate(known):
        if i in hit: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viol),
      assumptions=spec.get('assumptions', []),
      coverage=dict(states=S('paths'), transitions=S('forks'), traces_validated_against_impl=validated, samples=samples or [{'note': 'no completed path'}],
        exhaustive=not undecided, instructions=S('steps'), checks_discharged=S('checks') - len(viol), check_queries=S('check_queries'), identities_by_normal_form=S('poly_zero'), solver_queries=S('queries'), query_cache_hits=S('cache_hits'), sat=S('sat'), unsat=S('unsat'), solver_s=round(S('solver_s'), 2), max_query_s=max([x['m'].get('max_query_s', 0) for x in res] or [0]),
        bounds=spec.get('bounds', ''), runs=[dict(entry=x['run']['entry'], source=x['run'].get('src', spec['src']), variant=x['run'].get('variant', ''), arithmetic='exact reals' if x['run'].get('real') else 'bit-precise', params=x['params'], paths=x['m'].get('paths'), ends=x['m']['ends'], covers=x['m']['covers'], assertions=x['m']['check_msgs'], wall_s=x['wall']) for x in res],
        functions_encoded=fns, lines_executed={os.path.relpath(f, REPO): len(n) for f, n in sorted(lines.items())}, undecided=undecided, native_mismatches=mism, known_findings_hit=[known[i]['what'] for i in sorted(hit)]))
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    print(f"{pid} [{tier}] paths={S('paths')} forks={S('forks')} checks={S('checks')} queries={S('queries')} solver={S('solver_s'):.1f}s validated={validated} functions={len(fns)} wall={time.time()-t0:.1f}s")
    for x in res: print(f"   {x['run']['entry']:28s} {x['run'].get('variant','')} {x['params']} paths={x['m'].get('paths')} ends={x['m']['ends']} {x['wall']}s")
    for u in undecided[:8]: print('UNDECIDED: ' + u)
    for e, v, d in viol:
        print(f"  {e}: {v['kind']}: {v['msg']} at {v['loc']}")
        print(f"VIOLATION property={pid} replay={d}/replay.sh")
    if viol: sys.exit(1)
    bad = False
    for e, v, d, rc in unrep: print(f"UNREPRODUCED: {e}: {v['kind']}: {v['msg']} at {v['loc']} (native {rc}) {d}"); bad = True
    for s in mism[:5]: print('MISMATCH: ' + s); bad = True
    if need: print('VACUOUS: not reached ' + str(need)); bad = True
    if nochk: print('VACUOUS: no assertion evaluated in ' + str(nochk)); bad = True
    if strict and undecided: bad = True
    sys.exit(2 if bad else 0)
main()
