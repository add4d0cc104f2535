#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
from props import PROPS  # noqa
V = os.path.dirname(HERE)
files_ok = '/repo/'
FLOW = 'path-sensitive interprocedural value-flow analysis of the syntax tree'
TECH = {
    'C01': FLOW + ': dominance of sends and hand-overs by role tests', 'C02': FLOW + ': dominance and label flow',
    'C03': FLOW + ': typestate of connections', 'C04': FLOW + ': dominance of emission by the duplicate test',
    'C09': FLOW + ': bracketing of context changes over all attribute combinations',
    'C10': FLOW + ': computed terms against the timing model', 'C11': FLOW + ' with polynomial values of time texts',
    'C14': FLOW + ': effect analysis of shared and thread-local state', 'C15': FLOW + ' compared with the attributes of the XML schema',
    'C18': FLOW + ' compared with the attributes of the XML schema', 'C24': FLOW + ' compared with the attributes of the XML schema',
    'C22': 'whole-package resolution of names, imports, arguments and attributes with definite-assignment dataflow',
    'C27': 'dataflow inference of nullable times and lint of truth tests on them',
    'C31': FLOW + ': case table of root attributes', 'C33': 'regular-language inclusion of lexical forms and polynomial value flow',
}
with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        for f in p['files']:
            assert os.path.exists(files_ok + f), f
        fh.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
            'quantifier': {'over': p['over'], 'text': ' '.join(p['forall'].split())},
            'why_tests_cant': ' '.join(p['why'].split()),
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None},
        }, sort_keys=False) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -c "import ast, json"', 'checks': [], 'not_applicable': [],
       'notes': 'Static analysis only: every check parses the current Python source of /repo (nothing is imported or run) '
                'and follows the value flow of the functions that implement the property.'}
for p in PROPS:
    if p.get('na'):
        man['not_applicable'].append({'property': p['id'], 'reason': ' '.join(p['na'].split())})
    else:
        man['checks'].append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s' % p['id'],
            'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
            'technique': p.get('technique') or TECH.get(p['id'], FLOW + ' (dominance, must-reach and dataflow rules)'),
            'level': 'other',
            'level_note': ' '.join(p['note'].split())})
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(man['checks']), 'claimed', len(man['not_applicable']), 'not applicable')
