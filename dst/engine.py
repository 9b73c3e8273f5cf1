"""Orchestrator: worker pool, statistics, minimisation, replay files, evidence."""
import atexit
import collections
import hashlib
import json
import os
import queue
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')
PY = os.environ.get('DST_PYTHON', '/opt/venv/bin/python')


class HarnessError(Exception):
    pass


def build_shim():
    src = os.path.join(VERIF, 'dst', 'shim', 'simshim.c')
    with open(src, 'rb') as f:
        h = hashlib.sha1(f.read()).hexdigest()[:12]
    for d in (os.path.join(VERIF, 'build'), None):
        if d is None:
            d = tempfile.mkdtemp(prefix='pyhwp-dst-build-')
            atexit.register(shutil.rmtree, d, True)
        so = os.path.join(d, 'libsimshim-%s.so' % h)
        if os.path.exists(so):
            return so
        try:
            os.makedirs(d, exist_ok=True)
            tmp = so + '.%d.tmp' % os.getpid()
            subprocess.run(['gcc', '-O2', '-w', '-fPIC', '-shared', '-o', tmp, src, '-ldl'], check=True)
            os.rename(tmp, so)
            return so
        except OSError:
            continue
    raise HarnessError('cannot build the shim')


def scratch_base():
    for d in ('/dev/shm', tempfile.gettempdir()):
        try:
            p = tempfile.mkdtemp(prefix='pyhwp-dst-', dir=d)
            os.chmod(p, 0o755)
            return p
        except OSError:
            continue
    raise HarnessError('no scratch directory')


class Worker:
    def __init__(self, root, so, env):
        self.root, self.so, self.env = root, so, env
        self.p = None

    def start(self):
        os.makedirs(self.root, exist_ok=True)
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = {k: v for k, v in os.environ.items() if not k.startswith(('PYHWP_', 'PYTHON', 'LC_', 'PAGER'))}
        env.update({'LD_PRELOAD': self.so, 'PYTHONHASHSEED': '0', 'LANG': 'C.UTF-8',
                    'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': os.path.join(self.root, 'pyc'),
                    'DST_REPO': REPO, 'TZ': 'UTC'})
        env.update(self.env)

        def pre():
            signal.signal(signal.SIGINT, signal.default_int_handler)
        self.p = subprocess.Popen([PY, os.path.join(VERIF, 'dst', 'worker.py'), self.root, str(r1), str(w2)],
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=open(os.path.join(self.root, 'worker.err'), 'ab'),
                                  env=env, preexec_fn=pre, close_fds=True, pass_fds=(r1, w2), cwd=self.root)
        os.close(r1)
        os.close(w2)
        self.w = os.fdopen(w1, 'w', encoding='utf-8')
        self.r = os.fdopen(r2, 'r', encoding='utf-8')
        if json.loads(self.r.readline() or 'null') != 'ready':
            raise HarnessError('worker did not start: ' + self.err())

    def err(self):
        try:
            with open(os.path.join(self.root, 'worker.err'), 'rb') as f:
                return f.read()[-2000:].decode('utf-8', 'replace')
        except OSError:
            return ''

    def call(self, req):
        if self.p is None:
            self.start()
        try:
            self.w.write(json.dumps(req) + '\n')
            self.w.flush()
            line = self.r.readline()
        except OSError:
            line = ''
        if not line:
            e = self.err()
            self.stop()
            return {'harness_error': 'worker died: ' + e}
        return json.loads(line)

    def stop(self):
        if self.p:
            try:
                self.w.close()
            except OSError:
                pass
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.r.close()
            self.p = None


class Pool:
    """N fork servers with one environment"""

    def __init__(self, base, so, n, env=None, tag=''):
        self.workers = [Worker(os.path.join(base, '%sw%d' % (tag, i)), so, env or {}) for i in range(n)]

    def map(self, reqs, progress=None):
        reqs = list(reqs)
        out = [None] * len(reqs)
        q = queue.SimpleQueue()
        for i in range(len(reqs)):
            q.put(i)
        errs = []

        def loop(w):
            while True:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                try:
                    out[i] = w.call(reqs[i])
                except Exception as e:       # noqa
                    errs.append(e)
                    return
        ts = [threading.Thread(target=loop, args=(w,), daemon=True)
              for w in self.workers[:max(1, min(len(self.workers), len(reqs)))]]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise HarnessError(repr(errs[0]))
        return out

    def stop(self):
        ts = [threading.Thread(target=w.stop) for w in self.workers]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


def canon(req):
    return json.dumps(req, sort_keys=True)


class Engine:
    def __init__(self, prop, seed=None, tier=None, jobs=None):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1') if seed is None else seed)
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.jobs = jobs or int(os.environ.get('DST_JOBS', '0')) or min(8, os.cpu_count() or 2)
        self.t0 = time.time()
        self.so = build_shim()
        self.base = scratch_base()
        atexit.register(self.cleanup)
        for s in (signal.SIGTERM, signal.SIGHUP):
            signal.signal(s, lambda *a: sys.exit(2))
        self.pools = {}
        self.refs = {}
        self.runs = 0
        self.fired = collections.Counter()
        self.digests = set()
        self.simtime = 0
        self.faulted_runs = 0
        self.probes = collections.Counter()
        self.samples = []
        self.viol = []
        self.extra = {}
        self.record = {} if os.environ.get('DST_DIGESTS') else None     # tools/selftest.py
        print('%s: seed=%d tier=%s jobs=%d' % (prop, self.seed, self.tier, self.jobs), flush=True)

    def rng(self, *key):
        return random.Random('%s/%d/%s' % (self.prop, self.seed, '/'.join(map(str, key))))

    def n(self, quick, thorough):
        return thorough if self.tier == 'thorough' else quick

    def cleanup(self):
        for p in self.pools.values():
            p.stop()
        self.pools = {}
        shutil.rmtree(self.base, ignore_errors=True)

    def pool(self, env=None, jobs=None):
        env = env or None
        key = json.dumps(env or {}, sort_keys=True) + '/%s' % jobs
        if key not in self.pools:
            self.pools[key] = Pool(self.base, self.so, jobs or self.jobs, env, 'p%d' % len(self.pools))
        return self.pools[key]

    def run(self, reqs, env=None, jobs=None):
        reqs = [self.dressed(q) for q in reqs]
        if env is None and any(q.get('pool') for q in reqs):    # by the environment of the interpreter
            by = {}
            for i, q in enumerate(reqs):
                by.setdefault(canon(q.get('pool') or {}), []).append(i)
            out = [None] * len(reqs)
            for k, ix in by.items():
                e = json.loads(k)
                for i, r in zip(ix, self.run([reqs[i] for i in ix], e, jobs)):
                    out[i] = r
            return out
        reps = self.pool(env, jobs).map(reqs)
        for q, r in zip(reqs, reps):
            if r is None or 'harness_error' in r:
                # one retry in a fresh worker rules out an unrelated hiccup
                r2 = self.pool(env, jobs).map([q])[0]
                if r2 is None or 'harness_error' in r2:
                    raise HarnessError('%s\nrequest: %s' % (
                        (r2 or {}).get('harness_error'), canon(q)[:1500]))
                reps[reqs.index(q)] = r = r2
            self.account(q, r)
        return reps

    def dressed(self, q):
        """a request that is compared byte by byte with its fault-free run"""
        if not q.get('cmp_ref') or 'savedir' in q or 'cmpdir' in q:
            return q
        ref = {k: v for k, v in q.items() if k not in ('faults', 'proc', 'want_log', 'want_lines', 'stale')}
        d = os.path.join(self.base, 'ref-' + hashlib.sha1(canon(ref).encode()).hexdigest())
        if not q.get('faults') and not q.get('proc') and not q.get('stale'):
            return dict(q, savedir=d)
        if not os.path.isdir(d):
            self.ref(q)
        return dict(q, cmpdir=d)

    def account(self, q, r):
        self.runs += 1
        if self.record is not None:
            key = canon({k: v for k, v in q.items() if k not in ('savedir', 'cmpdir')})
            self.record.setdefault(hashlib.sha1(key.encode()).hexdigest(), []).append(
                [key[:300], r.get('digest'), hashlib.sha1(canon(r.get('res')).encode()).hexdigest(), r.get('exit')])
        if r.get('digest'):
            h = r.get('res')['h'] if isinstance(r.get('res'), dict) and 'h' in r['res'] else ''
            self.digests.add(r['digest'] + h)
        for k, v in ((r.get('res') or {}).get('stat') or {}).items() if isinstance(r.get('res'), dict) else ():
            self.probes[k] += v
        sim = (r['res'].get('faults') or {}) if isinstance(r.get('res'), dict) else {}
        for k, v in sim.items():
            self.fired[k] += v
        for f in r.get('fired') or ():
            self.fired[f['kind'] + ('(%d)' % f['arg'] if f['kind'] in ('err', 'sticky') else '')] += 1
        for m in r.get('marks') or ():
            if m.startswith(('tool-fault:', 'epipe:', 'spawn-failed:')):
                self.fired[m] += 1
        if r.get('fired') or q.get('proc') or sim:
            self.faulted_runs += 1
        self.simtime += max(0, r.get('clock_ns', 0) - int(q.get('clock', 1700000000.0) * 1e9)) \
            if 'clock_ns' in r else 0

    def ref(self, req):
        """the fault-free execution of the same request (cached)"""
        q = {k: v for k, v in req.items() if k not in ('faults', 'proc', 'want_log', 'stale')}
        k = canon(q)
        if k not in self.refs:
            self.refs[k] = self.run([dict(q, want_log=1)])[0]
        return self.refs[k]

    def prefetch_refs(self, reqs):
        qs = {}
        for req in reqs:
            q = {k: v for k, v in req.items() if k not in ('faults', 'proc', 'want_log', 'stale')}
            if canon(q) not in self.refs:
                qs[canon(q)] = q
        ks = list(qs)
        for k, r in zip(ks, self.run([dict(qs[k], want_log=1) for k in ks])):
            self.refs[k] = r

    # -- verdicts ----------------------------------------------------------
    def violation(self, cls, msg, req, judge=None, shrink=None):
        self.viol.append((cls, msg, req, judge, shrink))

    def known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        try:
            with open(p) as f:
                return [k for k in json.load(f)['findings'] if k['property'] == self.prop]
        except OSError:
            return []

    def minimise(self, cls, req, judge, shrink, budget=60):
        deadline = time.time() + budget

        def bad(q):
            try:
                rep = self.run([q])[0]
            except HarnessError:
                return False
            return any(c == cls for c, _ in judge(self, q, rep))
        if not bad(req):
            return req, False
        again = True
        while again and time.time() < deadline:
            again = False
            for cand in shrink(req):
                if time.time() > deadline:
                    break
                if bad(cand):
                    req = cand
                    again = True
                    break
        return req, True

    def finish(self, level='exploration', rule='', assumptions=(), stubs='', components='', exit=True):
        known = self.known()
        printed = set()
        groups = collections.OrderedDict()
        for v in self.viol:
            cls, msg, req = v[:3]
            hit = None
            for k in known:
                if k.get('status') == 'open' and k['class'] == cls and all(
                        s in canon(req) + msg for s in k.get('match', [])):
                    hit = k
            if hit:
                if hit['id'] not in printed:
                    printed.add(hit['id'])
                continue
            groups.setdefault(cls, []).append(v)
        for k in known:
            if k.get('status') == 'open':
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['text']))
        code = 0
        shown = 0
        until = time.time() + 150
        for cls, vs in groups.items():
            code = 1
            vs = sorted(vs, key=lambda v: len(canon(v[2])))
            cls, msg, req, judge, shrink = vs[0]
            stable = True
            if judge and shown < 8:
                # the first few are minimised, all within a few minutes
                req, stable = self.minimise(cls, req, judge, shrink or shrink_default,
                                            max(0, min(60, until - time.time())))
                rep = self.run([dict(req, want_lines=1)])[0]
                ms = [m for c, m in judge(self, req, rep) if c == cls]
                msg = ms[0] if ms else msg
            else:
                rep = {}
            path = os.path.join(VERIF, 'evidence', 'replay-%s-%s.json' % (
                self.prop, hashlib.sha1((cls + canon(req)).encode()).hexdigest()[:10]))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'class': cls, 'message': msg, 'seed': self.seed,
                           'request': req, 'fired': rep.get('fired'), 'trace': (rep.get('lines') or [])[:4000],
                           'stable': stable}, f, indent=1)
            if shown < 8:
                print('--- %s (%d occurrences): %s' % (cls, len(vs), msg))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            shown += 1
        wall = time.time() - self.t0
        if self.record is not None:
            with open(os.environ['DST_DIGESTS'], 'w') as f:
                json.dump(self.record, f)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
            'wall_s': round(wall, 2),
            'coverage': {
                'evaluations': self.runs,
                'distinct_nontrivial': len(self.digests),
                'rule': rule,
                'samples': self.samples[:12],
                'runs_per_hour': int(self.runs / max(wall, 1e-6) * 3600),
                'seeds_per_hour': int(self.runs / max(wall, 1e-6) * 3600),
                'runs_with_faults': self.faulted_runs,
                'faults_fired': dict(sorted(self.fired.items())),
                'simulated_seconds': self.simtime / 1e9,
                'probes': dict(sorted(self.probes.items())),
                'violations': len(self.viol),
            },
            'assumptions': list(assumptions),
        }
        ev['coverage'].update(self.extra)
        if components:
            ev['coverage']['real_components'] = components
        if stubs:
            ev['coverage']['stubbed_components'] = stubs
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print('%s: %d simulated runs, %d distinct executions, %d with faults, %.1f s, %s' % (
            self.prop, self.runs, len(self.digests), self.faulted_runs, wall,
            'VIOLATED' if code else 'held'))
        if exit:
            self.cleanup()
            sys.stdout.flush()
            sys.exit(code)
        return code


def shrink_default(req):
    for key in ('faults', 'proc', 'steps'):
        fs = req.get(key) or []
        if len(fs) > 8:
            h = len(fs) // 2
            yield dict(req, **{key: fs[:h]})
            yield dict(req, **{key: fs[h:]})
        for i in range(len(fs)):
            yield dict(req, **{key: fs[:i] + fs[i + 1:]})
    for i, f in enumerate(req.get('faults') or []):
        if f['kind'] == 'sticky':
            g = list(req['faults'])
            g[i] = dict(f, kind='err')
            yield dict(req, faults=g)
    if req.get('env'):
        for k in req['env']:
            e = dict(req['env'])
            del e[k]
            yield dict(req, env=e)
