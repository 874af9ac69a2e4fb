#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from registry.py."""
import json, os
from registry import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
with open(V + '/properties.jsonl', 'w') as f:
    for pid in sorted(CHECKS):
        c = CHECKS[pid]
        assert len(c['title']) <= 80, (pid, len(c['title']))
        f.write(json.dumps({'id': pid, 'title': c['title'], 'statement': c['statement'], 'quantifier': {'over': c['over'], 'text': c['text']},
                            'why_tests_cant': c['why'], 'anchors': {'files': c['files'], 'mechanism': c['mechanism']}}) + '\n')
        for p in c['files']:
            assert os.path.exists('/repo/' + p), (pid, p)
m = {'version': 1, 'setup_cmd': 'python3 /verif/setup.py',
     'checks': [{'property': pid, 'quick_cmd': 'python3 run.py %s --tier quick' % pid, 'thorough_cmd': 'python3 run.py %s --tier thorough' % pid,
                 'technique': CHECKS[pid]['technique'], 'level': 'exploration', 'level_note': CHECKS[pid]['note']} for pid in sorted(CHECKS)],
     'not_applicable': [{'property': a, 'reason': b} for a, b in NOT_APPLICABLE]}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')

# DESIGN.md: the per-property table comes from the registry
d = open(V + '/design.in').read()
rows = []
for pid in sorted(CHECKS):
    c = CHECKS[pid]
    rows.append('### %s %s\n\n%s\n\n- *Cases*: %s\n- *Oracle and limits*: %s%s\n- *Runs*: %s\n' % (pid, c['title'], c['statement'], c['rule'], c['note'], (' ' + c['design']) if c.get('design') else '',
        '; '.join('`%s %s` (%s build%s, %s quick / %s thorough cases)' % (p['src'], ' '.join(p['args']), p['variant'], ', coverage-guided' if p.get('cov') else '', format(p['cases']['quick'], ','), format(p['cases']['thorough'], ',')) for p in c['phases'])))
open(V + '/DESIGN.md', 'w').write(d.replace('@@PROPS@@', '\n'.join(rows)).replace('@@SEEDS@@', open(V + '/seeded-results.md').read() if os.path.exists(V + '/seeded-results.md') else '(see seeded/)'))
