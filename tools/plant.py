"""python3 tools/plant.py SPEC.py [ID ...]: plants the bugs of a spec file one after the other and keeps those that qualify.

A spec file holds BUGS = [dict(id, property, file (below src/python/ficus), edits=[(old, new), ...], needs, breaks, demo)].
For each: apply to /repo, run the stable tests, the demonstration and the check of the property, undo, run the
demonstration again. Qualifying bugs are kept under seeded/<id>/ and the outcome of the check in tools/catches.json.
"""
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'a9041e685f702915d94701c49a1b9828cf5ab67d'
FICUS = '/repo/src/python/ficus/'
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 MPLBACKEND=Agg PYTHONPATH="$PWD/src"
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def stable():
    sh('bash /opt/vp/test.sh /tmp/plant_out.json')
    passed = set(map(str, json.load(open('/tmp/plant_out.json'))['passed']))
    return set(map(str, json.load(open('/opt/vp/BASELINE.json'))['stable'])) - passed


def main():
    space = {}
    exec(open(sys.argv[1]).read(), space)
    wanted = set(sys.argv[2:])
    catches_path = os.path.join(VERIF, 'tools', 'catches.json')
    catches = json.load(open(catches_path)) if os.path.exists(catches_path) else {}
    for bug in space['BUGS']:
        if wanted and bug['id'] not in wanted:
            continue
        assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
        folder = os.path.join(VERIF, 'seeded', bug['id'])
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, 'demo.sh'), 'w') as f:
            f.write(DEMO)
        with open(os.path.join(folder, 'demo.py'), 'w') as f:
            f.write(bug['demo'].lstrip('\n'))
        demo = f'bash {folder}/demo.sh'
        problems = []
        clean = sh(demo, cwd='/repo')
        if clean.returncode != 0:
            problems.append('demo fails on the unchanged tree: ' + (clean.stdout + clean.stderr)[-400:])
        try:
            for edit in bug['edits']:
                name, old, new = edit if len(edit) == 3 else (bug['file'], *edit)
                path = FICUS + name
                text = open(path).read()
                if text.count(old) != 1:
                    problems.append(f'{name}: {text.count(old)} places match {old[:60]!r}')
                    continue
                open(path, 'w').write(text.replace(old, new))
            diff = sh('git -C /repo diff').stdout
            name, old_lines = None, []
            for line in diff.splitlines():
                if line.startswith('--- a/'):
                    name = line[6:]
                    old_lines = sh(f'git -C /repo show {BASE}:{name}').stdout.splitlines()
                elif line.startswith('-') and line[1:].strip() and line[1:] not in old_lines:
                    problems.append(f'not a line of the original repository: {line}')
            if not problems:
                missing = stable()
                if missing:
                    problems.append(f'stable tests fail: {sorted(missing)[:3]}')
                planted = sh(demo, cwd='/repo')
                if planted.returncode == 0:
                    problems.append('demo passes with the change')
            caught = {}
            for pid in [bug['property']] + bug.get('also', []):
                r = sh(f'bash {VERIF}/check.sh {pid}', cwd=VERIF)
                caught[pid] = r.returncode
                print(f'  {bug["id"]} {pid}: exit {r.returncode}', '|'.join(r.stdout.strip().splitlines()[-2:])[:300])
        finally:
            sh('git -C /repo checkout -- .')
        if problems:
            print('NOT KEPT', bug['id'], problems)
            sh(f'rm -rf {folder}')
            continue
        with open(os.path.join(folder, 'patch.diff'), 'w') as f:
            f.write(diff)
        with open(os.path.join(folder, 'meta.json'), 'w') as f:
            json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, f, indent=1)
            f.write('\n')
        catches[bug['id']] = {'property': bug['property'], 'caught': caught[bug['property']] == 1, 'needs': bug['needs'],
                              'breaks': bug['breaks']}
        with open(catches_path, 'w') as f:
            json.dump(catches, f, indent=1, sort_keys=True)
            f.write('\n')
        print('KEPT', bug['id'], 'CAUGHT' if caught[bug['property']] == 1 else 'MISSED')


if __name__ == '__main__':
    main()
