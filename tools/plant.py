#!/usr/bin/env python3
"""plant.py: creates, confirms and runs planted bugs (never used by a check).

  from plant import plant;  plant(...)      writes seeded/<id>
  plant.py confirm ID...                    patch builds, tests pass, demo fails with it and passes without
  plant.py run ID...                        runs the property's check against it
"""
import json, os, shutil, subprocess, sys, time
V = os.environ.get('PLANT_DIR', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R = os.environ.get('PLANT_REPO', '/repo')  # a copy: no build, no tests


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def clean():
    assert not sh(['git', '-C', R, 'status', '--porcelain', '--untracked-files=no']).stdout.strip(), 'dirty /repo'


def plant(id, prop, edits, needs, breaks, main, sources, env='', setup='', kit=True):
    clean()
    for f, old, new in edits:
        s = open(R + '/' + f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(R + '/' + f, 'w').write(s.replace(old, new))
    patch = sh(['git', '-C', R, 'diff']).stdout
    sh(['git', '-C', R, 'checkout', '--', '.'])
    d = V + '/seeded/' + id
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    open(d + '/patch.diff', 'wb').write(patch)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.cc', 'w').write(main)
    if kit:
        shutil.copytree(V + '/tools/kit', d + '/kit')
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Exit 0 when the property holds on this input, 1 when it does not.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
%s%s bash "$D/kit/kit.sh" "$T/demo" "$D/demo.cc" %s || exit 3
timeout 120 "$T/demo" "$T" "$D"
''' % (setup, env, ' '.join(sources)))
    os.chmod(d + '/demo.sh', 0o755)
    return confirm(id)


def with_patch(id, fn):
    clean()
    r = sh(['git', '-C', R, 'apply', V + '/seeded/' + id + '/patch.diff'])
    assert r.returncode == 0, r.stdout
    try:
        return fn()
    finally:
        sh(['git', '-C', R, 'checkout', '--', '.'])


def demo(id):
    t = time.time()
    r = sh(['bash', V + '/seeded/' + id + '/demo.sh'], cwd=R)
    return r.returncode, r.stdout.decode(errors='replace')[-600:], time.time() - t


def confirm(id):
    def go():
        if R != '/repo':
            return True, demo(id)
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/plant-o.json')
        o = json.load(open('/tmp/plant-o.json'))
        ok = b.returncode == 0 and not o['failed'] and o['passed']
        return ok, demo(id)
    ok, d = with_patch(id, go)
    if R == '/repo':
        sh('bash /opt/vp/build.sh')
    u = demo(id)
    good = ok and d[0] != 0 and d[0] != 3 and u[0] == 0
    print('%s %s: tests=%s patched=%s unpatched=%s' % ('GOOD' if good else 'BAD ', id, ok, d if not good else (d[0], d[1].strip()[-150:]), u if not good else (u[0], round(u[2], 1))), flush=True)
    return good


def run(id):
    prop = json.load(open(V + '/seeded/%s/meta.json' % id))['property']

    def go():
        t = time.time()
        r = sh(['python3', V + '/check.py', prop], cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        o = r.stdout.decode(errors='replace')
        caught = r.returncode == 1 and 'VIOLATION property=%s ' % prop in o
        print('%s %s %s rc=%d %.0fs' % ('CAUGHT' if caught else 'MISSED', id, prop, r.returncode, time.time() - t), flush=True)
        print('   ' + '\n   '.join(x[:300] for x in o.strip().split('\n')[-5:]), flush=True)
    with_patch(id, go)


if __name__ == '__main__':
    for i in sys.argv[2:] or sorted(os.listdir(V + '/seeded')):
        (confirm if sys.argv[1] == 'confirm' else run)(i)
