"""Confirm a planted bug in a scratch copy and write it to seeded/<id>.

usage: plant.py SPEC.py   (SPEC defines BUGS: list of dicts with id, property,
file, old, new (or edits: [(file, old, new), ...]), needs, breaks, demo)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = ('#!/bin/bash\n'
           '# exit 0: the property holds; run with cwd = the repository\n'
           'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
           'exec %s -W ignore "$(dirname "$0")/demo.py"\n' % PY)


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)


def plant(bug, only_check=False):
    out = os.path.join(VERIF, 'seeded', bug['id'])
    work = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    repo = os.path.join(work, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', repo])
        os.makedirs(os.path.join(work, 'd'))
        with open(os.path.join(work, 'd', 'demo.py'), 'w') as fid:
            fid.write(bug['demo'].lstrip('\n'))
        with open(os.path.join(work, 'd', 'demo.sh'), 'w') as fid:
            fid.write(DEMO_SH)
        demo = ['timeout', '250', 'bash', os.path.join(work, 'd', 'demo.sh')]
        res = sh(demo, repo)
        if res.returncode:
            return 'BAD demo fails on the unchanged tree\n' + res.stdout[-1500:]
        for name, old, new in bug.get('edits') or [
                (bug['file'], bug['old'], bug['new'])]:
            path = os.path.join(repo, name)
            with open(path) as fid:
                text = fid.read()
            if text.count(old) != 1:
                return 'BAD old text found %d times in %s' % (
                    text.count(old), name)
            with open(path, 'w') as fid:
                fid.write(text.replace(old, new))
        diff = sh(['git', 'diff'], repo).stdout
        env = dict(os.environ, PYTHONPATH=repo, PYTHONHASHSEED='0')
        res = sh([PY, '-m', 'pytest', 'tests', '-q', '-p',
                  'no:cacheprovider', '-x'], repo, env)
        if res.returncode:
            return 'BAD tests fail: %s' % [line for line in res.stdout.split(
                '\n') if line.startswith('FAILED')]
        if '87 passed' not in res.stdout:
            return 'BAD tests: ' + res.stdout[-300:]
        res = sh(demo, repo)
        if not res.returncode:
            return 'BAD demo passes with the change'
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, 'patch.diff'), 'w') as fid:
            fid.write(diff)
        for name in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(work, 'd', name), out)
        with open(os.path.join(out, 'meta.json'), 'w') as fid:
            json.dump({'property': bug['property'], 'needs': bug['needs'],
                       'what_it_breaks': bug['breaks']}, fid, indent=1)
            fid.write('\n')
        env = dict(os.environ, VERIF_REPO=repo)
        res = sh(['timeout', '900', PY, 'run.py', bug['property'], '--tier',
                  'quick'], VERIF, env)
        return '%s by %s%s' % (
            'caught' if 'VIOLATION' in res.stdout and res.returncode == 1
            else 'MISSED', bug['property'],
            '' if 'VIOLATION' in res.stdout else '\n' + res.stdout[-600:])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    scope = {}
    with open(sys.argv[1]) as fid:
        exec(fid.read(), scope)
    for bug in scope['BUGS']:
        if len(sys.argv) > 2 and bug['id'] not in sys.argv[2:]:
            continue
        print(bug['id'], plant(bug), flush=True)


if __name__ == '__main__':
    main()
