#!/usr/bin/env python3
"""Development aid: confirms planted changes in a scratch copy and runs the checks against them.

plant.py confirm ID...   copy /repo, run demo.sh (must be 0), apply, build, stable tests, demo.sh (must not be 0)
plant.py check ID...     run the property's quick check against a scratch copy with the change applied
plant.py new ID          write patch.diff from the edits made in the scratch copy /tmp/plant/repo (plant.py open)
plant.py open            make the scratch copy
"""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
W = '/tmp/plant/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def open_():
    shutil.rmtree('/tmp/plant', ignore_errors=True)
    os.makedirs('/tmp/plant')
    sh(['cp', '-a', '/repo', W])


def apply(i):
    sh(['git', '-C', W, 'checkout', '--', '.'])
    r = sh(['git', '-C', W, 'apply', os.path.join(S, i, 'patch.diff')])
    assert r.returncode == 0, r.stdout


def demo(i, root):
    d = '/tmp/plant/demo'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(S, i), d)
    for f in os.listdir(d):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json':
            os.unlink(os.path.join(d, f))
    r = sh(['bash', d + '/demo.sh'], cwd=root)
    return r.returncode, r.stdout[-500:]


def in_repo(i):
    """Builds in /repo itself, as build.sh knows no other place; always undone."""
    p = os.path.join(S, i, 'patch.diff')
    assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is not clean'
    sh('bash /opt/vp/build.sh')
    a, ta = demo(i, '/repo')
    try:
        r = sh(['git', '-C', '/repo', 'apply', p])
        if r.returncode:
            return print(i, 'does not apply', r.stdout)
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/plant/o.json')
        o = json.load(open('/tmp/plant/o.json'))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = [x for x in stable if x not in o.get('passed', [])]
        c, tc = demo(i, '/repo')
        print(i, 'demo clean', a, 'build', b.returncode, 'missing tests', len(miss), 'failed now', o.get('failed'), 'demo patched', c,
              'OK' if a == 0 and c != 0 and not miss and b.returncode == 0 else 'BAD\n' + ta + '\n' + tc + (b.stdout[-1500:] if b.returncode else ''))
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == 'open':
        open_()
    elif cmd == 'new':
        d = os.path.join(S, ids[0])
        os.makedirs(d, exist_ok=True)
        with open(d + '/patch.diff', 'w') as f:
            f.write(sh(['git', '-C', W, 'diff']).stdout)
        sh(['git', '-C', W, 'checkout', '--', '.'])
        print(open(d + '/patch.diff').read())
    elif cmd == 'confirm':
        os.makedirs('/tmp/plant', exist_ok=True)
        for i in ids or sorted(os.listdir(S)):
            in_repo(i)
    elif cmd == 'check':
        if not os.path.isdir(W):
            open_()
        for i in ids or sorted(os.listdir(S)):
            apply(i)
            prop = json.load(open(os.path.join(S, i, 'meta.json')))['property']
            r = sh([sys.executable, os.path.join(V, 'sim', 'check.py'), prop], env=dict(os.environ, VERIF_REPO=W))
            print(i, prop, 'exit', r.returncode, 'CAUGHT' if r.returncode == 1 else 'MISSED', '\n    ' + '\n    '.join(
                r.stdout.strip().splitlines()[-6:]))
            sh(['git', '-C', W, 'checkout', '--', '.'])


main()
