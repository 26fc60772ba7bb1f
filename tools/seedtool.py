#!/usr/bin/env python3
"""Validates planted bugs: python3 tools/seedtool.py ID... (or all). For each: applies, builds, runs the stable tests,
runs demo.sh (must fail), runs the property's quick check (reports caught or not), reverts, runs demo.sh (must pass)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
def sh(c, t=1200, **k):
    p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **k)
    return p.returncode, p.stdout.decode('utf8', 'replace')
def demo(i):
    return sh('bash %s/seeded/%s/demo.sh' % (V, i), cwd=R)
def main(ids, check=True):
    assert sh('git -C %s status --porcelain' % R)[1].strip() == '', 'repo dirty'
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base.get('stable') or base.get('passed') or base.get('tests') or [])
    for i in ids:
        d = '%s/seeded/%s' % (V, i)
        m = json.load(open(d + '/meta.json'))
        rc0, o0 = demo(i)
        rc, o = sh('git -C %s apply %s/patch.diff' % (R, d))
        if rc: print(i, 'DOES NOT APPLY', o[:300]); continue
        try:
            rb, ob = sh('bash /opt/vp/build.sh'); sh('bash /opt/vp/test.sh /tmp/seed_t.json')
            p = json.load(open('/tmp/seed_t.json'))
            rd, od = demo(i)
            t0 = time.time()
            if check:
                rck, ock = sh('python3 check.py %s' % m['property'], cwd=V)
            else: rck, ock = -1, ''
            t1 = time.time() - t0
        finally:
            sh('git -C %s checkout -- .' % R)
        ok = rc0 == 0 and rd != 0 and rb == 0 and not p['failed'] and len(p['passed']) >= 16
        viol = 'VIOLATION property=' + m['property'] in ock
        print(i, m['property'], 'demo', rc0, rd, 'build', rb, 'tests', len(p['passed']), len(p['failed']), 'VALID' if ok else 'INVALID', '| check rc', rck, 'CAUGHT' if rck == 1 and viol else 'MISSED', '%.0fs' % t1)
        if not ok: print(o0[-500:], od[-500:], ob[-500:])
        if rck != 1: print(ock[-600:])
        sys.stdout.flush()
    sh('bash /opt/vp/build.sh')
if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if x != '--nocheck']
    main(a or sorted(os.listdir(V + '/seeded')), '--nocheck' not in sys.argv)
