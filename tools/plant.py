#!/usr/bin/env python3
"""Plant a bug: make seeded/<id>/ from edits and a demonstration, confirm it in a scratch copy, try the check on it.

Used as a library by throw-away scripts (plant(...)), or: tools/plant.py try [id...] to run the checks against the
planted bugs already there (results in /tmp/planted.json).
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
BASE = json.load(open('/opt/vp/BASELINE.json'))
ENV = dict(os.environ, LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           PYTHONNOUSERSITE='1', PYTHONPYCACHEPREFIX='/opt/vp/no-pycache')


def scratch(name):
    path = '/tmp/plant/' + name
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', path])
    subprocess.check_call(['git', '-C', path, 'checkout', '-q', '--', '.'])
    return path


def run(cmd, cwd, timeout=900, **env):
    p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def tests(path):
    """Stable tests in a scratch copy -> list of stable tests that do not pass."""
    xml = path + '.xml'
    run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--doctest-modules',
         '--timeout=300', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + xml], path,
        PYTHONPATH=path)
    out = path + '.json'
    run(['/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + xml], path)

    def names(x):
        if isinstance(x, dict):
            for k in ('passed', 'stable', 'tests', 'pass'):
                if k in x:
                    return set(x[k])
        return set(x)
    return sorted(names(BASE) - names(json.load(open(out))))


def demo(folder, path):
    return run(['bash', os.path.join(folder, 'demo.sh')], path, 300, PYTHONPATH=path)


def check(prop, path, tier='quick'):
    return run([os.path.join(VERIF, 'run'), prop, '--tier', tier], VERIF, 3000, VERIF_REPO=path, VERIF_SEED='1')


def plant(bug, prop, needs, breaks, edits, demo_py, try_check=True):
    folder = os.path.join(VERIF, 'seeded', bug)
    path = scratch(bug)
    try:
        for name, old, new in edits:
            full = os.path.join(path, name)
            s = open(full, encoding='utf-8').read()
            assert s.count(old) == 1, (bug, name, s.count(old), old)
            open(full, 'w', encoding='utf-8').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', path, 'diff'], stdout=subprocess.PIPE, check=True).stdout
        shutil.rmtree(folder, ignore_errors=True)
        os.makedirs(folder)
        open(os.path.join(folder, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(folder, 'demo.py'), 'w', encoding='utf-8').write(demo_py)
        open(os.path.join(folder, 'demo.sh'), 'w').write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" LANG=C.UTF-8 LC_ALL=C.UTF-8\n'
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(os.path.join(folder, 'meta.json'), 'w'), indent=1)
        missing = tests(path)
        with_patch = demo(folder, path)
        without = demo(folder, '/repo')
        ok = not missing and with_patch[0] != 0 and without[0] == 0
        line = '%s %s: tests missing %d, demo with %d, without %d' % (bug, prop, len(missing), with_patch[0], without[0])
        if not ok:
            print('REJECTED', line, missing[:3], without[1][-600:] if without[0] else '', with_patch[1][-300:])
            shutil.rmtree(folder)
            return
        if try_check:
            code, out = check(prop, path)
            print('CAUGHT' if code == 1 else 'MISSED(%d)' % code, line, '|', out.strip().split('\n')[0][:230])
        else:
            print('PLANTED', line)
    finally:
        shutil.rmtree(path, ignore_errors=True)
        for ext in ('.xml', '.json'):
            if os.path.exists(path + ext):
                os.remove(path + ext)


def attempt(bug):
    folder = os.path.join(VERIF, 'seeded', bug)
    meta = json.load(open(os.path.join(folder, 'meta.json')))
    path = scratch('try-' + bug)
    try:
        code, out = run(['git', 'apply', os.path.join(folder, 'patch.diff')], path)
        if code:
            return bug, meta['property'], 'patch does not apply', out
        d = demo(folder, path)[0]
        code, out = check(meta['property'], path)
        return bug, meta['property'], {1: 'caught', 0: 'missed'}.get(code, 'error %d' % code) + ('' if d else ' DEMO PASSES'), \
            out.strip().split('\n')[0][:200]
    finally:
        shutil.rmtree(path, ignore_errors=True)


if __name__ == '__main__':
    bugs = sys.argv[2:] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    with ThreadPoolExecutor(2) as ex:
        res = list(ex.map(attempt, bugs))
    for r in res:
        print(*r)
    json.dump(res, open('/tmp/planted.json', 'w'), indent=1)
