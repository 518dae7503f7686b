"""Writes properties.jsonl and MANIFEST.json from the catalogue."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import catalog

REPO = '/repo'
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as file:
    for p in catalog.P:
        for f in p['files']:
            if not os.path.exists(os.path.join(REPO, f)):
                print('missing anchor', p['id'], f)
        count = p['statement'].count('. ') + 1
        if count > 3:
            print('too many sentences', p['id'], count)
        if len(p['title']) > 80:
            print('title', p['id'])
        file.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mechanism']]),
        )) + '\n')

checks = []
na = []
for p in catalog.P:
    if p['na']:
        na.append(dict(property=p['id'], reason=p['na']))
    elif os.path.exists(os.path.join(ROOT, 'dst', 'props', p['id'].lower() + '.py')):
        checks.append(dict(
            property=p['id'],
            quick_cmd=f'./check {p["id"]} --tier quick',
            thorough_cmd=f'./check {p["id"]} --tier thorough',
            technique='deterministic simulation with fault injection: seeded search over schedules, inputs and fault sequences'
                      ' of the real code in one process, checked against a reference model and history oracles',
            level='exploration',
            level_note=p['note'] or 'Seeded sampling of programs, schedules and faults; no exhaustiveness is claimed.',
        ))
    else:
        na.append(dict(property=p['id'], reason='no check has been built for it so far'))
manifest = dict(
    version=1,
    setup_cmd='./check selftest',
    checks=checks,
    not_applicable=na,
    notes='No hooks in /repo: every seam (threads, locks, clocks, sockets, selectors, pipes, processes, randomness) is the standard library module the code imports, replaced before scarletio is imported. See DESIGN.md.',
)
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as file:
    json.dump(manifest, file, indent=1)
    file.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
