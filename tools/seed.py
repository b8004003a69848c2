#!/usr/bin/env python3
"""seed.py ID...: in scratch copies of /repo, confirms that a planted bug builds, passes the tests and is shown by its demonstration, and runs its check(s).
   --new ID: makes the folder from a spec on stdin (see the code); --check-only skips the tests."""
import json, os, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, 'seeded')


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)


def build(d):
    b = d + '/_build'
    shutil.rmtree(b, ignore_errors=True)
    r = sh('CC=/usr/bin/gcc CXX=/usr/bin/g++ cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug >/dev/null && ninja -C %s' % (d, b, b))
    if r.returncode:
        print((r.stdout + r.stderr)[-3000:])
    return r.returncode == 0


def copy():
    d = tempfile.mkdtemp(prefix='seed.')
    sh('git -C /repo archive HEAD | tar x -C %s' % d)
    return d


def demo(d, s):
    x = tempfile.mkdtemp(prefix='seeddemo.')
    try:
        for f in os.listdir(s):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(os.path.join(s, f), x)
        try:
            return sh(['bash', x + '/demo.sh'], cwd=d, timeout=300)
        except subprocess.TimeoutExpired:
            class R: returncode, stdout, stderr = 'timeout', '', ''
            return R
    finally:
        shutil.rmtree(x)


def new(i, prop, needs, what, file, edits, demopy):
    s = os.path.join(SEED, i)
    os.makedirs(s, exist_ok=True)
    d = copy()
    p = d + '/src/' + file
    t = open(p).read()
    for a, b in edits:
        if t.count(a) != 1:
            print(i, 'OLD COUNT', t.count(a), repr(a))
            sys.exit(3)
        t = t.replace(a, b)
    sh('git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', cwd=d)
    open(p, 'w').write(t)
    open(s + '/patch.diff', 'w').write(sh('git diff', cwd=d).stdout)
    shutil.rmtree(d)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(s + '/meta.json', 'w'), indent=1)
    open(s + '/demo.sh', 'w').write('#!/bin/bash\n# Run with cwd /repo after the build: exit 0 if the property holds, 1 if it is broken.\nexec python3 "$(dirname "$0")/demo.py"\n')
    shutil.copy(V + '/tools/demolib.py', s + '/demolib.py')
    open(s + '/demo.py', 'w').write(demopy)
    print('wrote', s)


def verify(i, tests=True, checks=True, n=3):
    s = os.path.join(SEED, i)
    meta = json.load(open(s + '/meta.json'))
    res = [i]
    d = copy()
    try:
        if not build(d):
            return res + ['BASE BUILD FAILED']
        for k in range(n):
            r = demo(d, s)
            if r.returncode != 0:
                print(r.stdout + r.stderr)
                res.append('DEMO FAILS ON BASE')
                break
        a = sh(['git', 'apply', s + '/patch.diff'], cwd=d)
        if a.returncode:
            return res + ['PATCH DOES NOT APPLY ' + a.stderr]
        if not build(d):
            return res + ['PATCHED BUILD FAILED']
        if tests:
            t = sh('ctest --test-dir %s/_build --timeout 60 < /dev/null' % d)
            res.append('tests pass' if t.returncode == 0 else 'TESTS FAIL ' + t.stdout[-600:])
        for k in range(n):
            r = demo(d, s)
            if r.returncode in (0, 'timeout'):
                print(r.stdout + r.stderr)
                res.append('DEMO PASSES WITH PATCH')
                break
        else:
            res.append('demo ok: ' + r.stdout.strip()[-120:])
        if checks:
            e = tempfile.mkdtemp(prefix='seedev.')
            c = sh(['python3', V + '/check.py', meta['property']], env=dict(os.environ, K8PSH_REPO=d, K8PSH_EVID=e))
            shutil.rmtree(e)
            l = [x for x in c.stdout.split('\n') if x and not x.startswith('    in')]
            res.append('%s exit %d%s: %s' % (meta['property'], c.returncode, ' CAUGHT' if c.returncode == 1 else ' MISSED', l[0][:200] if l else c.stderr[-300:]))
    finally:
        shutil.rmtree(d)
    return res


if __name__ == '__main__':
    a = sys.argv[1:]
    t = '--no-tests' not in a
    c = '--no-checks' not in a
    for i in [x for x in a if not x.startswith('--')] or sorted(os.listdir(SEED)):
        print('\n   '.join(map(str, verify(i, t, c))), flush=True)
