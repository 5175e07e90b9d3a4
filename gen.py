#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from spec.py"""
import json, os
from spec import PROPS
import spec
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS.values():
        assert len(p['title']) <= 80, p['title']
        json.dump({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                   'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                   'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                               'observe_at': p['observe'], 'hook_needed': None}}, f)
        f.write('\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py build',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'exploration',
                 'level_note': p['note'] or ('Random search: %d cases per quick run, %d per thorough run, shrunk on failure; no violation means none was found among them. %s'
                 % (p['cases'], p['cases'] * p['thorough'], ('Assumes: ' + '; '.join(p['assume']) + '.') if p['assume'] else ''))} for p in PROPS.values()],
     'not_applicable': getattr(spec, 'NOT_APPLICABLE', []),
     'notes': 'No hooks in /repo: all checks use the public C++ and Python interfaces. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

from spec import ORACLE
import os
V=os.path.dirname(os.path.abspath(__file__))
out=open(os.path.join(V,'DESIGN.head.md')).read()+'## Properties and how each is decided\n\n'
for p in PROPS.values():
    out+='### %s %s\n\n- generated: %s\n- oracle: %s\n- cost: %d cases quick, %d thorough (`%s`)\n- why tests cannot: %s\n' % (p['id'],p['title'],p['gen'],ORACLE[p['id']],p['cases'],p['cases']*p['thorough'],p['bin'],p['why'])
    if p['assume']: out+='- assumes: '+'; '.join(p['assume'])+'\n'
    out+='\n'
t=os.path.join(V,'DESIGN.tail.md')
if os.path.exists(t): out+=open(t).read()
open(os.path.join(V,'DESIGN.md'),'w').write(out)
