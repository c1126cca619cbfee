"""Plants the bugs described in a file: confirms each one in a scratch copy
(builds, passes the stable tests, demo quiet on the unchanged tree and failing
with the change) and keeps it in seeded/<id>/.

usage: plant.py BUGS.py [id ...]     (BUGS.py defines BUGS = [dict, ...])
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/plant'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def stable():
    return set(json.load(open('/opt/vp/BASELINE.json')).get('stable')
               or json.load(open('/opt/vp/BASELINE.json'))['tests'])


def run_tests():
    """Tests run in /repo itself (test.sh is bound to it)."""
    out = WORK + '/out.json'
    sh(f'bash /opt/vp/test.sh {out}')
    return json.load(open(out))


def demo(path):
    env = dict(os.environ, HOME='/root', PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    try:
        return subprocess.run(['bash', path], cwd='/repo', env=env, timeout=120,
                              capture_output=True, text=True)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess([], 124, '', 'timeout')


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = set(sys.argv[2:])
    os.makedirs(WORK, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
    for bug in bugs:
        if only and bug['id'] not in only:
            continue
        bug.setdefault('what_it_breaks', bug.get('breaks'))
        dest = os.path.join(WORK, 'seeded', bug['id'])
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        with open(dest + '/demo.py', 'w') as f:
            f.write(bug['demo'].strip() + '\n')
        with open(dest + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                    'exec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
        with open(dest + '/meta.json', 'w') as f:
            json.dump({k: bug[k] for k in ('property', 'needs', 'what_it_breaks')}, f, indent=1)
            f.write('\n')
        clean = demo(dest + '/demo.sh')
        if clean.returncode:
            print(f'{bug["id"]}: DEMO FAILS ON CLEAN: {(clean.stdout + clean.stderr)[-300:]}')
            continue
        try:
            for path, old, new in bug['edits']:
                text = open('/repo/' + path).read()
                assert text.count(old) == 1, (bug['id'], text.count(old), old)
                open('/repo/' + path, 'w').write(text.replace(old, new))
            diff = sh('git -C /repo diff').stdout
            open(dest + '/patch.diff', 'w').write(diff)
            if sh('bash /opt/vp/build.sh').returncode:
                print(f'{bug["id"]}: DOES NOT BUILD')
                continue
            broken = demo(dest + '/demo.sh')
            if not broken.returncode:
                print(f'{bug["id"]}: DEMO DOES NOT FAIL')
                continue
            res = run_tests()
            check = sh(f'bash {VERIF}/tools/checkall.sh')
        finally:
            sh('git -C /repo checkout -- .')
        print(f'{bug["id"]}: demo fails ({broken.returncode}: '
              f'{(broken.stdout + broken.stderr).strip().splitlines()[-1:]}), '
              f'tests {summary(res)}')
        out = check.stdout.splitlines()
        hit = [x.split(':')[0] for x in out if 'VIOLATION' in x]
        und = sorted({x.split('UNDECIDED ')[1][:110] for x in out if 'UNDECIDED' in x})
        print('      ', 'CAUGHT' if bug['property'] in hit else 'MISSED', bug['property'],
              'violations:', hit, 'undecided:', und[:4], flush=True)
        if tests_ok(res):
            final = os.path.join(VERIF, 'seeded', bug['id'])
            shutil.rmtree(final, ignore_errors=True)
            shutil.copytree(dest, final)
            print('       KEPT')


def names(res, what):
    v = res.get(what)
    return v if isinstance(v, list) else []


def summary(res):
    return f'passed={len(names(res, "passed"))} failed={names(res, "failed")[:3]}'


def tests_ok(res):
    return stable() <= set(names(res, 'passed'))


if __name__ == '__main__':
    main()
