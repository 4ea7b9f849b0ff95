#!/usr/bin/env python3
"""Make and confirm a planted bug.  seed.py ID : reads seeded/ID/{patch.diff,demo.sh,meta.json}; builds and tests a scratch copy
(/tmp/mt/repo), runs the demo with and without the change and the property's check against the copy."""
import json, os, subprocess, sys
V = '/verif'
R = '/tmp/mt/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def reset():
    sh('git -C %s checkout -q -- . && git -C %s clean -fdq -e _build' % (R, R))
    sh('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (R, R))


def main(i, tests=True, check=True):
    d = '%s/seeded/%s' % (V, i)
    meta = json.load(open(d + '/meta.json'))
    reset()
    r0 = sh('bash %s/demo.sh' % d, cwd=R)
    a = sh('git -C %s apply %s/patch.diff' % (R, d))
    if a.returncode:
        print(i, 'PATCH DOES NOT APPLY', a.stderr); return
    res = '-'
    if tests:
        b = sh('bash /tmp/mt/vp/build.sh')
        sh('bash /tmp/mt/vp/test.sh /tmp/mt/o.json')
        o = json.load(open('/tmp/mt/o.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        st = base.get('stable') or base.get('passed') or base.get('tests')
        miss = [t for t in st if t not in o['passed']]
        res = 'build rc=%d, baseline tests lost: %s' % (b.returncode, miss[:4])
    r1 = sh('bash %s/demo.sh' % d, cwd=R)
    print(i, meta['property'], '| demo clean rc=%d, with bug rc=%d |' % (r0.returncode, r1.returncode), res)
    if r0.returncode or not r1.returncode:
        print(r0.stdout[-300:], r0.stderr[-600:], r1.stdout[-300:], r1.stderr[-300:])
    if check:
        c = sh('VF_REPO=%s python3-vt %s/engine/check.py %s --tier quick' % (R, V, meta['property']))
        print('   check rc=%d' % c.returncode, c.stdout.strip().split('\n')[-1][:200])
    reset()


if __name__ == '__main__':
    f = [x for x in sys.argv[1:] if x.startswith('-')]
    for i in [x for x in sys.argv[1:] if not x.startswith('-')]:
        main(i, '-n' not in f, '-c' not in f)
