"""Is one seed one execution?  selftest.py [CNN...]

Runs each check twice with the same seed, once with 8 and once with 3 workers,
and compares the digest of the trace and the result of every simulated run.
C07's runs under the thread scheduler are included."""
import json
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = 0
for prop in sys.argv[1:] or ['C%02d' % i for i in range(1, 18)]:
    recs = []
    for jobs in ('8', '3'):
        fd, path = tempfile.mkstemp()
        os.close(fd)
        try:
            subprocess.run([os.path.join(VERIF, 'check.sh'), prop], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           env=dict(os.environ, DST_DIGESTS=path, DST_JOBS=jobs), timeout=3000)
            with open(path) as f:
                recs.append(json.load(f))
        finally:
            os.unlink(path)
    a, b = recs
    n = sum(map(len, a.values()))
    only = set(a) ^ set(b)
    diff = [k for k in a if k in b and any(x != a[k][0] for x in a[k] + b[k])]
    print('%s: %d runs, %d requests in one execution only, %d with another trace or result' % (
        prop, n, len(only), len(diff)), flush=True)
    for k in diff[:5]:
        print('   ', a[k][0], b[k][0])
    for k in list(only)[:3]:
        print('   only once:', (a.get(k) or b.get(k))[0][0])
    bad += bool(diff or only)
sys.exit(1 if bad else 0)
