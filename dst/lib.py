"""Shared parts of the checks that drive the library inside one process."""
import contextlib
import hashlib
import io
import os

from . import docs
from . import ref
from .engine import REPO
from .engine import shrink_default

REPO_SRC = os.path.join(REPO, 'src')


FAULTS = {}


def fault(kind, n=1):
    FAULTS[kind] = FAULTS.get(kind, 0) + n


class Log:
    """verdicts and history of one lib run"""

    def __init__(self):
        self.bad, self.stat = [], {}
        self.hash = hashlib.sha1()

    def say(self, *a):
        self.hash.update(repr(a).encode('utf-8', 'replace'))

    def count(self, k, n=1):
        self.stat[k] = self.stat.get(k, 0) + n

    def fail(self, cls, msg):
        self.bad.append([cls, str(msg)[:600]])

    def res(self, **k):
        return dict({'bad': self.bad, 'stat': self.stat, 'faults': FAULTS, 'h': self.hash.hexdigest()}, **k)


def judge(eng, req, rep):
    if rep.get('hang') or rep.get('timeout'):
        return [('hang', 'does not end: %s' % (req.get('what') or req.get('steps'),))]
    r = rep.get('res')
    if r is None:
        return [('died', 'the process dies with %s: %s' % (rep['exit'], rep.get('stderr', '')[-300:]))]
    return [(c, m) for c, m in r['bad']]


def shrink(req):
    for q in shrink_default(req):
        yield q
    for i, st in enumerate(req.get('steps') or []):
        if isinstance(st, dict):
            for k in ('sizes', 'splits'):
                v = st.get(k)
                if isinstance(v, list) and len(v) > 1:
                    for w in (v[:len(v) // 2], v[len(v) // 2:], v[:1]):
                        if w != v:
                            ss = list(req['steps'])
                            ss[i] = dict(st, **{k: w})
                            yield dict(req, steps=ss)


def sweep(eng, reqs, env=None, jobs=None, cls_of=None, prefix=None):
    """run, judge, record"""
    reqs = list(reqs)
    reps = eng.run(reqs, env, jobs)
    for q, rep in zip(reqs, reps):
        for c, m in judge(eng, q, rep):
            eng.violation(c, m, q, judge, shrink)
    return list(zip(reqs, reps))


def sample(eng, pairs, n=8):
    import json
    for q, rep in pairs[::max(1, len(pairs) // n)][:12]:
        d = {k: v for k, v in q.items() if k in ('steps', 'faults', 'docs', 'plan')}
        eng.samples.append('%s -> %s' % (json.dumps(d)[:300], (rep.get('res') or {}).get('stat')))


@contextlib.contextmanager
def guard(log, what, cls='exception', allow=()):
    """an exception out of the library where none is due is a violation; an
    exception of the harness itself stays one"""
    try:
        yield
    except allow:
        raise
    except Exception as e:
        tb, frames = e.__traceback__, []
        while tb:
            frames.append(tb.tb_frame.f_code.co_filename)
            tb = tb.tb_next
        if not any(f.startswith(REPO_SRC) for f in frames):
            raise
        log.fail(cls, '%s: %s: %s' % (what, type(e).__name__, str(e)[:200]))


class SimSource(io.RawIOBase):
    """a source that delivers in scripted portions: splits is a cycle of
    maximal delivery sizes; fail_at: byte offset at which reading fails;
    the failure persists for `fails` attempts (-1: for good)"""

    def __init__(self, data, splits=(0,), fail_at=None, exc=None, fails=-1):
        self.data, self.splits, self.pos, self.n = data, list(splits) or [0], 0, 0
        self.fail_at, self.exc, self.fails = fail_at, exc or OSError(5, 'simulated I/O error'), fails
        self.reads = 0
        self.whole = False      # deliver what was asked for or fail

    def readable(self):
        return True

    def read(self, size=-1):
        self.reads += 1
        if self.reads > 2000000:
            raise RuntimeError('livelock: reads without end')
        if size is None or size < 0:
            out = []
            while True:
                b = self._some(1 << 30)
                if not b:
                    return b''.join(out)
                out.append(b)
        return self._some(size)

    def _some(self, size):
        if size == 0:
            return b''
        lim = self.splits[self.n % len(self.splits)]
        self.n += 1
        if 0 < lim < size:
            size = lim
            fault('sim-short-delivery')
        if self.fail_at is not None and self.fails != 0:
            if self.pos >= self.fail_at or self.whole and self.pos + min(size, len(self.data)) > self.fail_at:
                self.fails -= 1
                fault('sim-read-error')
                raise self.exc
            size = min(size, self.fail_at - self.pos)
        b = self.data[self.pos:self.pos + size]
        self.pos += len(b)
        return b

    def readinto(self, b):
        d = self._some(len(b))
        b[:len(d)] = d
        return len(d)

    def tell(self):
        return self.pos

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        self.pos = max(0, pos + (self.pos if whence == 1 else len(self.data) if whence == 2 else 0))
        return self.pos

    def close(self):
        pass


SIZES = [0, 1, 1, 2, 3, 5, 7, 16, 100, 255, 511, 512, 513, 1000, 4095, 4096, 4097, 8191, 8192, 8196, 8197, 65536, 300000]


def sizes(rng, total=20000):
    m = rng.random()
    if m < .15:
        out = [rng.choice([1, 2, 3, 7])]
    elif m < .3:
        out = [rng.choice(SIZES[3:])]
    else:
        out = [rng.choice(SIZES) for _ in range(rng.randrange(1, 9))]
    if not any(out):
        out.append(rng.choice([1, 4096]))
    if rng.random() < .2:
        out.insert(rng.randrange(len(out) + 1), -1)
    if rng.random() < .05:
        out.insert(rng.randrange(len(out) + 1), None)
    return out


def splits(rng):
    m = rng.random()
    if m < .2:
        return [0]
    if m < .4:
        return [rng.choice([1, 2, 3, 5])]
    return [rng.choice([0, 1, 2, 3, 4, 7, 8, 100, 255, 511, 512, 1000, 4095, 4096, 4097, 8196]) for _ in range(rng.randrange(1, 7))]


def drain(f, szs, log, what, limit=None, text=False):
    """read f to its end by the cyclic size plan, checking the read contract"""
    out = []
    empty = '' if text else b''
    i = 0
    zero = 0
    while True:
        n = szs[i % len(szs)]
        i += 1
        if n is None:
            d = f.read()
        else:
            d = f.read(n)
        if not isinstance(d, type(empty)):
            log.fail('type', '%s: read(%r) returns %r' % (what, n, type(d)))
            return empty.join(x for x in out if isinstance(x, type(empty)))
        if n is not None and n >= 0 and len(d) > n:
            log.fail('too-much', '%s: read(%d) returns %d bytes' % (what, n, len(d)))
        if d:
            out.append(d)
        elif n != 0:
            # end of data: it must stay the end
            for m in (1, 100, -1, 0, 1):
                if f.read(m):
                    log.fail('data-after-end', '%s: data returned after the end was reported' % what)
                    break
            break
        if i > 3000000:
            log.fail('no-end', '%s: no end of data' % what)
            break
    return empty.join(out)


def diff(a, b):
    k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return 'got %d, expected %d bytes, first difference at %d' % (len(a), len(b), k)


def doc_path(root, name='d.hwp'):
    return os.path.join(root, 'in', name)


class SimStorage:
    """an in-memory storage handed to the library in place of an OLE file;
    world decides what each open and read delivers"""

    def __init__(self, tree, world=None, base=''):
        self.tree, self.world, self.base = tree, world if world is not None else World(), base

    def __iter__(self):
        return iter(self.world.order(list(self.tree), self.base))

    def __getitem__(self, name):
        v = self.tree[name]
        p = self.base + name
        if isinstance(v, dict):
            return SimStorage(v, self.world, p + '/')
        return SimItem(v, self.world, p)

    def close(self):
        self.world.closed = True


class SimItem:
    def __init__(self, data, world, path):
        self.data, self.world, self.path = data, world, path

    def open(self):
        return self.world.open(self.path, self.data)


class World:
    """faults: {path: [{'n': nth open, 'kind': 'open'|'read', 'at': offset, 'fails': k}]}"""

    def __init__(self, splits=(0,), faults=None, dirseed=0):
        self.splits, self.faults, self.opens, self.fired = splits, faults or {}, {}, []
        self.dirseed, self.closed, self.live = dirseed, False, []

    def order(self, names, base):
        names.sort()
        if self.dirseed:
            import random
            random.Random('%s/%s' % (self.dirseed, base)).shuffle(names)
        return names

    def open(self, path, data):
        n = self.opens[path] = self.opens.get(path, -1) + 1
        at, fails = None, -1
        for f in self.faults.get(path, ()):
            if f.get('n', n) != n:
                continue
            if f['kind'] == 'open':
                self.fired.append([path, 'open'])
                fault('sim-open-error')
                raise SimIOError(f.get('errno', 5), 'simulated open failure', path)
            if f['kind'] == 'read':
                at, fails = min(f['at'], max(0, len(data) - 1)), f.get('fails', -1)
        s = SimSource(data, self.splits if path.startswith(('DocInfo', 'BodyText', 'ViewText', 'BinData')) else (0,), at, None, fails)
        s.exc = SimIOError(5, 'simulated read failure', path)
        s.world, s.path = self, path
        s.whole = not path.startswith(('DocInfo', 'BodyText', 'ViewText', 'BinData'))
        self.live.append(s)
        return s


class SimIOError(OSError):
    pass


def plain_tree(tree, only=None):
    """the same document stored uncompressed"""
    t = docs.copytree(tree)
    if docs.flags(t) & 1 and not docs.flags(t) & 6:
        for p in list(docs.compressed_paths(t)):
            docs.setp(t, p, ref.plain_stream(t, p))
        docs.setflags(t, docs.flags(t) & ~1)
    return t


def freeze(x):
    """a comparable image of models and events"""
    if isinstance(x, dict):
        return tuple(sorted(((str(k), freeze(v)) for k, v in x.items()), key=lambda kv: kv[0]))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    if isinstance(x, type):
        return 'type:' + x.__name__
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if isinstance(x, (str, int, float)) or x is None:
        return (type(x).__name__ if type(x) not in (str, int, float, bool) else '', x)
    return type(x).__name__
