#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from checks/registry.py."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from checks.registry import PROPS, NOT_APPLICABLE  # noqa

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for id, p in {**PROPS, **NOT_APPLICABLE}.items():
        assert len(p['title']) <= 80, id
        f.write(json.dumps(dict(id=id, title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=p['mechanism'], hook_needed=None))) + '\n')
checks = []
for id, p in PROPS.items():
    checks.append(dict(property=id, quick_cmd=f'./check.py {id} --tier quick',
                       thorough_cmd=f'./check.py {id} --tier thorough', evidence_file=f'evidence/{id}.json',
                       technique=p.get('technique', 'symbolic execution of the Python sources with SMT-decided '
                                                    'assertions (z3), counterexamples replayed on the real code'),
                       level='model_checking',
                       level_note=f"Bounded: {p['bounds']}. Outside: {p['outside']}. Trusted: the symbolic models in "
                                  "sx/ (cross-checked against concrete runs of the plain sources on every check) and z3."))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, greenlet" || python3-vt -c "import z3"', checks=checks,
         not_applicable=[dict(property=k, reason=v['reason']) for k, v in NOT_APPLICABLE.items()],
         notes='No hooks in /repo. Every check re-reads /repo/src on every run.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')

# the per-property part of DESIGN.md
MARK = '<!-- generated by make_manifest.py from checks/registry.py and seeded/ -->'
with open(os.path.join(ROOT, 'DESIGN.md')) as f:
    head = f.read().split(MARK)[0].rstrip() + '\n\n'
out = [head + MARK, '', '## Properties', '']
HARN = {}
import re  # noqa
for name in sorted({m for p in PROPS.values() for m in p['modules']}):
    with open(os.path.join(ROOT, 'checks', name + '.py')) as f:
        src = f.read()
    for m in re.finditer(r"@harness\('(\w+)'(?:[^\n]*\n)(?:(?!def )[^\n]*\n)*?def (\w+)\([^\n]*\n(?:    \"\"\"(.*?)\"\"\")?", src,
                         re.S):
        HARN.setdefault(m.group(1), []).append((m.group(2), ' '.join((m.group(3) or '').split())))
for id, p in PROPS.items():
    out += [f"### {id} {p['title']}", '', p['statement'], '']
    out += ['* Code: ' + '; '.join(f"{m['name']} ({m['where']})" for m in p['mechanism'])]
    out += [f"* Decided over: {p['text']}"]
    out += [f'* Harness `{n}`: {d}' if d else f'* Harness `{n}`' for n, d in HARN.get(id, [])]
    out += [f"* Bounds: {p['bounds']}", f"* Outside: {p['outside']}", '']
out += ['## Planted bugs', '',
        'Each is in `seeded/<id>/` with a demonstration; all were confirmed in a scratch copy. `tools/plant.py` builds them.',
        '', '| id | property | what it breaks | needs |', '|---|---|---|---|']
sd = os.path.join(ROOT, 'seeded')
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    with open(os.path.join(sd, d, 'meta.json')) as f:
        m = json.load(f)
    out.append(f"| {d} | {m['property']} | {' '.join(m['what_it_breaks'].split())} | {' '.join(m['needs'].split())} |")
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out) + '\n')
