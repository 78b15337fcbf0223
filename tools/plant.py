#!/usr/bin/env python3
"""Create and confirm planted bugs: seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}.

usage: plant.py SPEC.py [ID ...]     SPEC.py defines PLANTS = {id: dict(property, file, edits=[(old, new)], needs, breaks, demo)}
Applies each to a scratch copy of /repo, runs the stable tests' command there and the demo with and without the change.
"""
import json, os, pathlib, runpy, shutil, subprocess, sys, tempfile
ROOT = pathlib.Path(__file__).resolve().parent.parent / 'seeded'
PRELUDE = '''"""Demonstration: exits 0 when the property holds."""
import os, sys, tempfile, atexit, shutil, traceback
SCRATCH = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, SCRATCH, True)
for k in [k for k in os.environ if k.startswith('HYPERSHELL')]:
    del os.environ[k]
os.environ.update(HOME=SCRATCH, HYPERSHELL_SITE=SCRATCH, HYPERSHELL_LOGGING_LEVEL='critical',
                  HYPERSHELL_DATABASE_FILE=os.path.join(SCRATCH, 'test.db'), TZ='UTC')
os.chdir(SCRATCH)
sys.path.insert(0, os.environ.get('DEMO_SRC', '/repo/src'))
sys.dont_write_bytecode = True
'''
SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch
export PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main():
    plants = runpy.run_path(sys.argv[1])['PLANTS']
    only = sys.argv[2:]
    for id, p in plants.items():
        if only and id not in only:
            continue
        d = ROOT / id
        d.mkdir(parents=True, exist_ok=True)
        (d / 'demo.sh').write_text(SH)
        (d / 'demo.sh').chmod(0o755)
        (d / 'demo.py').write_text(PRELUDE + p['demo'])
        (d / 'meta.json').write_text(json.dumps({'property': p['property'], 'needs': p['needs'],
                                                 'what_it_breaks': p['breaks']}, indent=1) + '\n')
        tmp = tempfile.mkdtemp(prefix='plant-')
        try:
            run(['git', 'clone', '-q', '/repo', tmp + '/r'])
            edits = p['edits'] if isinstance(p['edits'], dict) else {p['file']: p['edits']}
            for file, pairs in edits.items():
                f = pathlib.Path(tmp, 'r', file)
                s = f.read_text()
                for a, b in pairs:
                    assert s.count(a) == 1, (id, s.count(a), a)
                    s = s.replace(a, b)
                f.write_text(s)
            diff = run(['git', 'diff'], cwd=tmp + '/r').stdout
            (d / 'patch.diff').write_text(diff)
            env = dict(os.environ)
            good = run(['bash', str(d / 'demo.sh')], cwd='/repo', env=env)
            bad = run(['bash', str(d / 'demo.sh')], cwd=tmp + '/r', env=dict(env, DEMO_SRC=tmp + '/r/src'))
            print(f'{id}: clean {good.returncode}, planted {bad.returncode}',
                  'OK' if good.returncode == 0 and bad.returncode not in (0, 124) else 'BAD')
            if good.returncode != 0:
                print(good.stdout[-800:], good.stderr[-2000:])
            elif bad.returncode == 0:
                print(bad.stdout[-800:], bad.stderr[-800:])
            elif '-v' in os.environ.get('V', ''):
                print(bad.stdout[-500:], bad.stderr[-900:])
        finally:
            shutil.rmtree(tmp)


main()
