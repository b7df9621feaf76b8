#!/usr/bin/env python3
"""Makes properties.jsonl, MANIFEST.json and the fixed list of known_findings.json."""
import json, os, re, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import P
from fixes import FIXES
ids = sorted(P)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for i in ids:
        p = P[i]
        assert len(p['title']) <= 80, (i, len(p['title']))
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        for x in p['files']:
            assert os.path.exists(os.path.join('/repo', x)), x
        if p['observe']: a['observe_at'] = p['observe']
        f.write(json.dumps(dict(id=i, title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'], anchors=a)) + '\n')
checks = []
for i in ids:
    assert os.path.exists(os.path.join(V, 'harness/props', i + '.cpp')), i
    checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
        technique='property-based testing: generated inputs against an independent oracle, with shrinking and replay',
        level='exploration', level_note=P[i]['note'] + ' Sampled, not exhaustive: quiet means no counterexample among the cases counted in the evidence. Trusts the reference model in harness/ and the sanitizer build.'))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='python3 harness/build.py all', checks=checks, not_applicable=[],
        notes='Every check compiles /repo with address and undefined-behaviour sanitizers in /verif/build and runs the generators in harness/props. No hooks are needed in /repo.'), f, indent=1)
    f.write('\n')
log = {}
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines():
    h, s = l.split(' ', 1)
    log[s] = h
kf = json.load(open(os.path.join(V, 'known_findings.json')))
kf['fixed'] = []
missing = [s for s in log if s.startswith('fix:') and s[5:] not in FIXES]
assert not missing, missing
for s, prop in FIXES.items():
    kf['fixed'].append('fixed: property=%s %s %s' % (prop, log['fix: ' + s], s))
with open(os.path.join(V, 'known_findings.json'), 'w') as f:
    json.dump(kf, f, indent=1); f.write('\n')
# DESIGN.md
def subs(i):
    t = open(os.path.join(V, 'harness/props', i + '.cpp')).read()
    return re.findall(r'^SUB(?:_CPU)?\((\w+), (\d+), (\d+), (?:\d+, )?"((?:[^"\\]|\\.)*)"\)', t, re.M)
out = ''
for i in ids:
    p = P[i]
    out += '### %s: %s\n\n%s\n\nOver: %s.\nWhy tests cannot: %s\n\n' % (i, p['title'], p['statement'], p['quant'], p['why'])
    out += 'Decided by: %s\n\n' % p['note']
    for n, q, t, rule in subs(i):
        out += '* `%s` (%s cases quick, %s thorough): %s.\n' % (n, q, t, rule.replace('\\"', '"').replace('\\\\', '\\'))
    out += '\n'
seeded = ''
sd = os.path.join(V, 'seeded')
notes = {}
nf = os.path.join(V, 'tools/seeded.json')
if os.path.exists(nf): notes = json.load(open(nf))
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = os.path.join(sd, d, 'meta.json')
    if os.path.exists(m):
        j = json.load(open(m))
        seeded += '* `%s` (%s): %s  Needs: %s  Result: %s\n' % (d, j['property'], j['what_it_breaks'], j['needs'], notes.get(d, 'not run yet'))
t = open(os.path.join(V, 'tools/DESIGN.in')).read()
t = t.replace('@@PROPS@@', out.strip()).replace('@@FIXES@@', '\n'.join('* %s %s: %s' % (FIXES[s], log['fix: ' + s], s) for s in FIXES))
t = t.replace('@@REST@@', open(os.path.join(V, 'tools/rest.md')).read().strip()).replace('@@SEEDED@@', seeded.strip())
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
