#!/usr/bin/env python3
"""mkseed.py spec.py [--nocheck]: make and confirm planted bugs.

spec.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=python
source, needs, breaks)].  Each is applied to /repo, tested (the stable tests
must pass, the demo must fail), reverted, and written to /verif/seeded/<id>.
"""
import json, os, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0 when the property holds, nonzero otherwise
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH=/opt/vp/support:"$PWD" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0
exec /opt/venv/bin/python "$D/demo.py"
'''
PRE = 'import tf1_api  # noqa\nimport numpy as np\nimport tensorflow as tf\nimport zhusuan as zs\n'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


def main():
    ns = runpy.run_path(sys.argv[1])
    only = [a for a in sys.argv[2:] if not a.startswith('--')]
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        assert not sh('git -C /repo status --porcelain').stdout.strip()
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(PRE + s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('cd /repo && timeout 280 bash %s/demo.sh' % d)
        try:
            for f, a, b in s['edits']:
                p = '/repo/' + f
                t = open(p).read()
                assert t.count(a) == 1, (s['id'], f, t.count(a), a)
                open(p, 'w').write(t.replace(a, b))
            patch = sh('git -C /repo diff').stdout
            open(d + '/patch.diff', 'w').write(patch)
            r1 = sh('cd /repo && timeout 280 bash %s/demo.sh' % d)
            t = sh('bash /opt/vp/test.sh /tmp/seedtest.json 2>/dev/null | '
                   'tail -1').stdout.strip()
            c = None
            if '--nocheck' not in sys.argv:
                c = sh('cd %s && ./run.sh %s quick' % (V, s['prop']))
        finally:
            sh('git -C /repo checkout -- .')
        ok = r0.returncode == 0 and r1.returncode != 0 and '234 passed' in t
        print('%s: demo %d/%d tests %s -> %s; check %s' % (
            s['id'], r0.returncode, r1.returncode, t,
            'OK' if ok else 'BAD', None if c is None else
            ('CAUGHT' if c.returncode == 1 and 'VIOLATION property=' +
             s['prop'] in c.stdout else 'MISSED %d' % c.returncode)))
        if r0.returncode:
            print(r0.stdout[-1500:])
        elif not r1.returncode:
            print(r1.stdout[-500:])
        if c is not None and c.returncode != 1:
            print(c.stdout[-800:])
        if not ok:
            sh('mv %s /tmp/badseed_%s' % (d, s['id']))
        sys.stdout.flush()


main()
