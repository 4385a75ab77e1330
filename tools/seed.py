#!/usr/bin/env python3
"""Planted bugs: make (mk) and test them.  seed.py test ID [--check]"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO_SH = '''#!/bin/bash
# exit 0: behaviour as specified; 1: not
set -e
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
g++ -std=c++11 -w -g -O1 -I/repo/include @FAC@"$d/demo.cc" -o "$w/demo" \\
  /repo/lib/libotlsmodels_sagging.a /repo/lib/libotlsmodels_thermalrating.a \\
  /repo/lib/libotlsmodels_sagtension.a /repo/lib/libotlsmodels_transmissionline.a \\
  /repo/lib/libotlsmodels_base.a
timeout 60 "$w/demo"
'''
DEMO_HEAD = '''#include <cmath>
#include <cstdio>
#include <list>
#include <string>
#include <vector>
%s
static int bad = 0;
static void check(bool c, const char* what) {
  if (!c) { std::printf("FAILED: %%s\\n", what); bad = 1; }
}
static bool near(double a, double b, double tol = 1e-6) {
  return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b));
}
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def mk(id, prop, edits, includes, body, needs, breaks, prelude='', factory=False):
    """edits: [(file, old, new)]; body: text of main"""
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C %s status --porcelain' % REPO).stdout.strip(), 'repo dirty'
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, f)
            with open(p) as fp:
                s = fp.read()
            assert s.count(old) == 1, (f, s.count(old), old)
            with open(p, 'w') as fp:
                fp.write(s.replace(old, new))
        with open(os.path.join(d, 'patch.diff'), 'w') as fp:
            fp.write(sh('git -C %s diff' % REPO).stdout)
    finally:
        sh('git -C %s checkout -- .' % REPO)
    with open(os.path.join(d, 'demo.cc'), 'w') as fp:
        fp.write(DEMO_HEAD % '\n'.join('#include "%s"' % i for i in includes) + prelude + '\nint main() {\n' + body + '\n  return bad;\n}\n')
    p = os.path.join(d, 'demo.sh')
    with open(p, 'w') as fp:
        fp.write(DEMO_SH.replace('@FAC@', '-I/repo /repo/test/factory.cc ' if factory else ''))
    os.chmod(p, 0o755)
    with open(os.path.join(d, 'meta.json'), 'w') as fp:
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, fp, indent=1)
        fp.write('\n')
    return test(id, True)


def test(id, check=True):
    d = os.path.join(HERE, 'seeded', id)
    with open(os.path.join(d, 'meta.json')) as fp:
        prop = json.load(fp)['property']
    out = {}
    assert not sh('git -C %s status --porcelain' % REPO).stdout.strip(), 'repo dirty'
    sh('bash /opt/vp/build.sh')
    r = sh('bash %s/demo.sh' % d, cwd=REPO)
    out['clean demo'] = r.returncode
    if r.returncode:
        print(r.stdout, r.stderr[-1500:])
    try:
        a = sh('git -C %s apply %s/patch.diff' % (REPO, d))
        assert a.returncode == 0, a.stderr
        t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        with open('/tmp/seedtest.json') as fp:
            passed = set(json.load(fp)['passed'])
        with open('/opt/vp/BASELINE.json') as fp:
            stable = set(json.load(fp)['stable'])
        out['tests'] = 'pass' if stable <= passed else 'FAIL %s' % sorted(stable - passed)[:5]
        r = sh('bash %s/demo.sh' % d, cwd=REPO)
        out['bug demo'] = r.returncode
        if check:
            c = sh('./run.py %s quick' % prop, cwd=HERE, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            out['check'] = c.returncode
            out['lines'] = [l for l in c.stdout.splitlines() if l.startswith(('VIOLATION', 'undischarged'))][:4]
            if c.returncode not in (0, 1):
                out['lines'] = c.stdout[-1500:] + c.stderr[-1500:]
    finally:
        sh('git -C %s checkout -- .' % REPO)
        sh('bash /opt/vp/build.sh')
    ok = out['clean demo'] == 0 and out['tests'] == 'pass' and out['bug demo'] != 0
    print(id, prop, 'COUNTS' if ok else 'INVALID', 'CAUGHT' if out.get('check') == 1 else 'missed', json.dumps(out, indent=1))
    return ok


if __name__ == '__main__':
    if sys.argv[1] == 'test':
        ids = [a for a in sys.argv[2:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
        for i in ids:
            test(i, True)
