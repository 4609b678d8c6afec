#!/usr/bin/env python3
"""Development aid: confirm planted bugs in scratch copies of /repo and run the property's check on them.
usage: seedcheck.py [-n] [-j JOBS] ID...     (-n: skip the repository's own tests)
Prints one line per bug: applies / builds tests / demo clean / demo patched / check exit + violation line."""
import sys, os, json, subprocess, shutil, tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, cwd, env=None, timeout=1000):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def one(sid, tests=True):
    d = os.path.join(HERE, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    w = tempfile.mkdtemp(prefix='seed-%s-' % sid, dir='/tmp')
    res = ['%-8s %s' % (sid, meta['property'])]
    try:
        copy = os.path.join(w, 'repo')
        subprocess.check_call(['git', 'clone', '-q', os.environ.get('SEEDREPO', '/repo'), copy])
        demo = os.path.join(w, 'demo')
        shutil.copytree(d, demo)
        rc, out = sh(['bash', os.path.join(demo, 'demo.sh')], copy)
        res.append('demo-clean=%d' % rc + ('' if rc == 0 else '!!\n' + out[-800:]))
        rc, out = sh(['git', 'apply', os.path.join(d, 'patch.diff')], copy)
        if rc:
            return '\n'.join(res + ['DOES NOT APPLY', out])
        rc, out = sh(['bash', os.path.join(demo, 'demo.sh')], copy)
        res.append('demo-patched=%d' % rc + ('' if rc else '!!'))
        if tests:
            os.makedirs(os.path.join(copy, 'examples', 'output'), exist_ok=True)
            x = os.path.join(w, 'r.xml')
            rc, out = sh(['/opt/venv/bin/pytest', '-q', '--rootdir=' + copy, '--confcutdir=' + copy, '-p', 'no:cacheprovider', '-n', '3',
                          '--show_plot=False', '--timeout=300', '--continue-on-collection-errors', '--tb=short', '-W', 'ignore',
                          '--ignore=%s/examples/modelling/test_pcp.py' % copy, '-o', 'junit_family=xunit2', '--junitxml=' + x, copy],
                         os.path.join(copy, 'examples', 'modelling'), env=dict(PYTHONPATH=copy))
            last = out.strip().splitlines()[-1]
            res.append('tests: ' + last + ('' if '145 passed' in last else ' !!'))
        rc, out = sh(['python3', 'check.py', meta['property']], HERE,
                     env=dict(VERIF_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE=os.path.join(w, 'ev')))
        hit = [l for l in out.splitlines() if l.startswith(('VIOLATION property=%s ' % meta['property'], 'failing', 'CHECK-BROKEN'))]
        res.append('check=%d %s' % (rc, 'CAUGHT' if rc == 1 and any(h.startswith('VIOL') for h in hit) else 'MISSED'))
        res += hit[:1]
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return ' | '.join(res)


if __name__ == '__main__':
    a = sys.argv[1:]
    tests = '-n' not in a
    j = int(a[a.index('-j') + 1]) if '-j' in a else 3
    ids = [x for i, x in enumerate(a) if not x.startswith('-') and not (i and a[i - 1] == '-j')] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda s: one(s, tests), ids):
            print(r, flush=True)
