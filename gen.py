#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from specs.py (the committed files are its output).
import json, os
from specs import SPECS, NA
V = os.path.dirname(os.path.abspath(__file__))
def prop(pid, s):
    return dict(id=pid, title=s['title'], statement=s['statement'], quantifier=dict(over=s['over'], text=s['qtext']), why_tests_cant=s['why'],
      anchors=dict(files=s['files'], mechanism=[dict(name=n, where=w) for n, w in s['mech']], hook_needed=None))
with open(V + '/properties.jsonl', 'w') as f:
    for pid, s in sorted(SPECS.items()):
        assert len(s['title']) <= 80, (pid, len(s['title'])); f.write(json.dumps(prop(pid, s)) + '\n')
    for s in NA: f.write(json.dumps(prop(s['id'], s)) + '\n')
note = 'Holds for every input within the bounds (see bounds in evidence/DESIGN.md): every path through the compiled code is explored and every assertion on it decided by Z3; nothing is claimed beyond the bounds. Trusts: clang -O1 lowering, the llsym interpreter and its C/C++ runtime model (sampled paths are replayed against the natively compiled code), Z3.'
m = dict(version=1, setup_cmd='make -s -j8', checks=[dict(property=pid, quick_cmd=f'python3 check.py {pid} --tier quick', thorough_cmd=f'python3 check.py {pid} --tier thorough', evidence_file=f'evidence/{pid}.json', technique=s.get('technique', 'symbolic execution of the LLVM bitcode + SMT (Z3), bounded'), level='model_checking', level_note=(note + ' ' + 'Bounds: ' + s.get('bounds', '') + '. ' + s.get('note', '')).strip()) for pid, s in sorted(SPECS.items())],
  not_applicable=[dict(property=s['id'], reason=s['reason']) for s in NA], notes='Every check: compile /repo sources to LLVM bitcode, execute symbolically with build/llsym, replay counterexamples natively before reporting.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

# DESIGN.md
def design(pid, s):
    rs = lambda tier: '; '.join(sorted({r['entry'] + (' ' + ' '.join(f'{k}={v}' for k, v in r[tier]['params'].items()) if r[tier]['params'] else '') for r in s['runs']}))
    return f"""### {pid} - {s['title']}

{s['statement']}

*For all:* {s['qtext']}. *Bounds:* {s['bounds']}. *Assumes:* {'; '.join(s['assumptions'])}.
*Why not a test:* {s['why']}
*Decided by:* `harness/{s['src']}`; quick: {rs('quick')}; thorough: {rs('thorough')}{'; for each of ' + ', '.join(s['variants']) if s.get('variants') else ''}. {s.get('note', '')}
*Caught seeded changes:* {', '.join(f'`{d}` ({m["needs"]})' for d, m in SEEDS if m['property'] == pid) or 'none planted'}.
"""
SEEDS = [(d, json.load(open(f'{V}/seeded/{d}/meta.json'))) for d in sorted(os.listdir(V + '/seeded'))] if os.path.isdir(V + '/seeded') else []
if SEEDS: open(V + '/DESIGN.md', 'w').write(open(V + '/design/head.md').read() + '\n## Properties\n\n' + '\n'.join(design(p, s) for p, s in sorted(SPECS.items())) + ''.join(f"\n### {s['id']} (not applicable) - {s['title']}\n\n{s['reason']}\n" for s in NA) + '\n' + open(V + '/design/tail.md').read().replace('come back.\n', 'come back.\n\n' + ''.join('* ' + l[7:] for l in open(V + '/known_findings.txt') if l.startswith('fixed:')), 1))
