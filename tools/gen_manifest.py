"""Writes MANIFEST.json from properties.jsonl and the checks which exist"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'default': 'property-based testing: generated cases against a reference model of units, '
               'shrunk to a replay file (Hypothesis)',
    'C11': 'property-based testing: group laws and stateful histories against a dict model (Hypothesis)',
    'C13': 'property-based testing of the unit-string grammar and hostile strings against a '
           'reference evaluator (Hypothesis)',
    'C16': 'property-based testing: the complete enumeration of units and labels against a '
           'golden table, with metamorphic relations between generated units',
    'C17': 'property-based testing: the complete enumeration of constants against an independent '
           'parse of the reference data, with physical relations and generated conversions',
    'C18': 'stateful property-based testing: generated histories against a registry model (Hypothesis)',
    'C24': 'stateful property-based testing: histories run on plain quantities and on instances of generated '
           'subclasses, compared step by step (Hypothesis)',
    'C25': 'property-based testing of schedules: generated programs of threads under generated, exactly '
           'controlled interleavings, compared with sequential runs (Hypothesis)',
    'C21': 'stateful property-based testing: generated histories with before/after snapshots (Hypothesis)',
}
NOTE = ('Random and structured exploration, no proof: about %s generated cases per quick run and '
        'about 25 times as many per thorough run, or the complete enumeration where the domain is '
        'finite; the evidence file gives counts per sub-check.')
COUNT = {}

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    i = p['id']
    path = os.path.join(HERE, 'pbt', i.lower() + '.py')
    if not os.path.exists(path):
        missing.append(i)
        continue
    try:
        n = json.load(open(os.path.join(HERE, 'evidence', i + '.json')))
        n = n['coverage']['evaluations'] if n['tier'] == 'quick' else None
    except Exception:
        n = None
    if n is None:
        n = 5000
    cmd = '/opt/venv/bin/python run.py ' + i
    checks.append({
        'property': i, 'quick_cmd': cmd + ' --tier quick', 'thorough_cmd': cmd + ' --tier thorough',
        'evidence_file': 'evidence/%s.json' % i,
        'technique': TECH.get(i, TECH['default']), 'level': 'exploration',
        'level_note': NOTE % (round(n, -2)),
    })
out = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
       'not_applicable': [{'property': i, 'reason': 'the check is not written yet'} for i in missing]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', 'missing', missing)
