#!/usr/bin/env python3
"""plant.py ID...: for each planted bug of seeded/, on /repo: demo without the patch, then with it build, stable tests,
demo, and the check of its property (or --checks C01,C02 / --all); everything is undone afterwards.
--record writes the outcome in seeded/results.json. Not used by any check."""
import argparse
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, t=900, **k):
    p = subprocess.run(c, capture_output=True, text=True, timeout=t, **k)
    return p.returncode, p.stdout + p.stderr


ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='+')
ap.add_argument('--checks')
ap.add_argument('--no-tests', action='store_true')
a = ap.parse_args()
rc, o = sh(['git', '-C', '/repo', 'status', '--porcelain'])
assert not o.strip(), 'repo not clean'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for i in a.ids:
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    env = {k: v for k, v in os.environ.items() if not k.startswith('VERIF')}
    rc0, o0 = sh(['bash', d + '/demo.sh'], cwd='/repo', env=env)
    res = ['demo clean %d' % rc0] + ([o0[-800:]] if rc0 else [])
    rc, o = sh(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    assert rc == 0, o
    try:
        if not a.no_tests:
            sh(['bash', '/opt/vp/build.sh'])
            sh(['bash', '/opt/vp/test.sh', '/tmp/plant.json'])
            passed = set(json.load(open('/tmp/plant.json'))['passed'])
            os.remove('/tmp/plant.json')
            res.append('tests ' + ('ok' if stable <= passed else 'FAIL %s' % sorted(stable - passed)[:3]))
        rc1, o1 = sh(['bash', d + '/demo.sh'], cwd='/repo', env=env)
        res.append('demo patched %d' % rc1)
        for c in (a.checks.split(',') if a.checks else [meta['property']]):
            rc, o = sh([sys.executable, V + '/check.py', c], env=dict(env, VERIF_SEED='1', VERIF_TIER='quick'))
            line = [l for l in o.splitlines() if l.startswith(('violated', 'MACHINERY'))]
            res.append('%s: %s %s' % (c, {0: 'MISSED', 1: 'caught'}.get(rc, 'error %d' % rc), line[0][:220] if line else o[-300:] if rc else ''))
    finally:
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])
    print(i, meta['property'], ' | '.join(res), flush=True)
