"""Write properties.jsonl and MANIFEST.json."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.props import PROPS, NOT_APPLICABLE  # noqa: E402

NOTE = ('Complete enumeration of the stated bounded space on the real code of '
        '/repo; the oracle is {}. Nothing is claimed outside the bound. '
        'Bound (quick): {}. Assumes: {}.')
checks = []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')
        pid = p['id']
        if any(n['property'] == pid for n in NOT_APPLICABLE):
            continue
        m = importlib.import_module('mc.' + pid.lower())
        checks.append({
            'property': pid,
            'quick_cmd': f'./run.sh {pid} quick',
            'thorough_cmd': f'./run.sh {pid} thorough',
            'evidence_file': f'evidence/{pid}.json',
            'technique': m.TECHNIQUE,
            'level': m.LEVEL,
            'level_note': NOTE.format(
                getattr(m, 'ORACLE', 'an independent reference model'),
                m.BOUNDS['quick'], '; '.join(m.ASSUMPTIONS) or 'nothing')})
json.dump({
    'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
    'not_applicable': NOT_APPLICABLE,
    'notes': 'Pure Python; imports wake_t from /repo. Genuine defects found '
             'and repaired are listed in known_findings.json.'},
    open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


# DESIGN.md
from tools.design import SECTIONS, TAIL  # noqa: E402
kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
out = [open(os.path.join(HERE, 'tools/design_head.md')).read().rstrip(), '',
       '## Properties', '']
for p in PROPS:
    pid = p['id']
    m = importlib.import_module('mc.' + pid.lower())
    out += ['### %s %s' % (pid, p['title']), '', SECTIONS[pid], '',
            '* Quick bound: ' + m.BOUNDS['quick'] + '.',
            '* Thorough bound: ' + m.BOUNDS['thorough'] + '.',
            '* Assumes: ' + ('; '.join(m.ASSUMPTIONS) or 'nothing') + '.']
    fx = [f for f in kf['fixed'] if 'property=%s ' % pid in f]
    if fx:
        out.append('* Repaired defects: ' + '; '.join(
            ' '.join(f.split()[2:]) for f in fx) + '.')
    out.append('')
out += ['No property is under `not_applicable`: each is decided by '
        'enumeration within its bound.', '', TAIL.strip(), '',
        '## Planted bugs', '',
        'Each was written from the text of a property and the code, confirmed '
        'in a scratch copy (tests pass, demonstration fails) and then run '
        'against the quick check of its property.', '',
        '| bug | breaks | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(os.path.join(HERE, 'tools/caught.json')))
sd = os.path.join(HERE, 'seeded')
for i in sorted(os.listdir(sd)):
    mt = json.load(open(os.path.join(sd, i, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (
        i, mt['what_it_breaks'].replace('|', '/'), mt['needs'].replace(
            '|', '/'), caught.get(i, '-')))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
