#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the property table, the harness section rules and the seeded bugs."""
import json, os, re, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_data import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()
kf = json.loads(rd('known_findings.json'))
costs = json.loads(rd('tools/costs.json')) if os.path.exists(os.path.join(V, 'tools/costs.json')) else {}
caught = json.loads(rd('tools/seed_results.json')) if os.path.exists(os.path.join(V, 'tools/seed_results.json')) else {}
def rules(src):
    out = []
    for m in re.finditer(r'MC_SECTION\(\s*(\w+)\s*,\s*((?:"(?:[^"\\]|\\.)*"\s*)+)\)', rd('harness/' + src)):
        out.append((m.group(1), ''.join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(2)))))
    return out
fixed = '\n'.join(' * ' + f[len('fixed: '):] for f in kf['fixed'])
find = '\n'.join(' * %s `%s`: %s' % (f['property'], f['key'], f['what']) for f in kf['findings']) or ' * none'
seeds = ['| seed | property | file | needs | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    i = os.path.basename(d); m = json.load(open(d + '/meta.json'))
    fs = ', '.join(sorted({l[6:].strip() for l in open(d + '/patch.diff') if l.startswith('+++ b/')}))
    seeds.append('| %s | %s | %s | %s; %s | %s |' % (i, m['property'], fs, m['needs'], m['what_it_breaks'], caught.get(i, m['property'])))
props = []
for p in PROPS:
    a = ['### %s %s' % (p['id'], p['title']), '**Specified.** ' + p['statement'], '', '**Enumerated.** ' + p['text'][0].upper() + p['text'][1:] + '. Sections:']
    modes = {}
    for q in p['programs']:
        modes.setdefault(q['src'], []).append(' '.join([q['mode']] + q.get('flags', [])) + (', thorough only' if q.get('tier') == 'thorough' else ''))
    for src, ms in modes.items():
        for n, r in rules(src):
            a.append(' * `%s` %s (%s): %s' % (src, n, '; '.join(ms), r))
    a += ['', '**Decided by.** ' + p['note'], '', '**Why tests cannot.** ' + p['why'], '', '**Anchored at.** ' + '; '.join('%s (`%s`)' % m for m in p['mechanism']) + '; files ' + ', '.join('`%s`' % f for f in p['files']) + '.']
    if p['assumptions']: a += ['', '**Assumes.** ' + '; '.join(p['assumptions']) + '.']
    if p['id'] in costs: a += ['', '**Cost.** ' + costs[p['id']]]
    props.append('\n'.join(a))
t = rd('tools/design_head.md').replace('@FIXED@', fixed).replace('@FINDINGS@', find).replace('@SEEDS@', '\n'.join(seeds)).replace('@PROPS@', '\n\n'.join(props))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
